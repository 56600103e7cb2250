package audiox

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
)

// VH_Types: object types, channel modes and frame lengths have the numbers of the specifications.
//
//vh: prop=P44
func VH_Types() {
	for i, x := range [][2]int{
		{int(mpeg4audio.ObjectTypeAACLC), 2},
		{int(mpeg4audio.ObjectTypeSBR), 5},
		{int(mpeg4audio.ObjectTypePS), 29},
		{mpeg4audio.SamplesPerAccessUnit, 1024},
		{int(mpeg1audio.ChannelModeStereo), 0},
		{int(mpeg1audio.ChannelModeJointStereo), 1},
		{int(mpeg1audio.ChannelModeDualChannel), 2},
		{int(mpeg1audio.ChannelModeMono), 3},
		{ac3.SamplesPerFrame, 1536},
	} {
		vnd.Observe("index", uint64(i))
		vnd.Assert(x[0] == x[1], "number of the type")
	}
	vnd.Reach("ok")
}
