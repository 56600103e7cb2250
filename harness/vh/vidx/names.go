package vidx

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
)

// VH_Types: JPEG markers, MPEG-4 start codes and AV1 OBU types have the numbers of the specifications.
//
//vh: prop=P44
func VH_Types() {
	for i, x := range [][2]int{
		{jpeg.MarkerStartOfImage, 0xD8},
		{jpeg.MarkerDefineQuantizationTable, 0xDB},
		{jpeg.MarkerDefineHuffmanTable, 0xC4},
		{jpeg.MarkerDefineRestartInterval, 0xDD},
		{jpeg.MarkerStartOfFrame1, 0xC0},
		{jpeg.MarkerStartOfScan, 0xDA},
		{jpeg.MarkerEndOfImage, 0xD9},
		{jpeg.MarkerComment, 0xFE},
		{int(mpeg4video.VideoObjectStartCodeFirst), 0},
		{int(mpeg4video.VideoObjectStartCodeLast), 0x1F},
		{int(mpeg4video.VisualObjectSequenceStartCode), 0xB0},
		{int(mpeg4video.VideoObjectLayerStartCodeFirst), 0x20},
		{int(mpeg4video.VideoObjectLayerStartCodeLast), 0x2F},
		{int(mpeg4video.UserDataStartCode), 0xB2},
		{int(mpeg4video.GroupOfVOPStartCode), 0xB3},
		{int(mpeg4video.VisualObjectStartCode), 0xB5},
		{int(mpeg4video.VOPStartCode), 0xB6},
		{int(av1.OBUTypeSequenceHeader), 1},
		{int(av1.OBUTypeTemporalDelimiter), 2},
	} {
		vnd.Observe("index", uint64(i))
		vnd.Assert(x[0] == x[1], "number of the type")
	}
	vnd.Reach("ok")
}
