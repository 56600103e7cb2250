package h264x

import (
	"github.com/bluenviron/mediacommon/v2/internal/vnd"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
)

// VH_Types: unit types have the numbers of the specification and distinct names.
//
//vh: prop=P44 merge=none states=200
func VH_Types() {
	t := vnd.Byte("type")
	known := false
	for _, x := range []struct {
		typ  h264.NALUType
		n    byte
		name string
	}{
		{h264.NALUTypeNonIDR, 1, "NonIDR"},
		{h264.NALUTypeDataPartitionA, 2, "DataPartitionA"},
		{h264.NALUTypeDataPartitionB, 3, "DataPartitionB"},
		{h264.NALUTypeDataPartitionC, 4, "DataPartitionC"},
		{h264.NALUTypeIDR, 5, "IDR"},
		{h264.NALUTypeSEI, 6, "SEI"},
		{h264.NALUTypeSPS, 7, "SPS"},
		{h264.NALUTypePPS, 8, "PPS"},
		{h264.NALUTypeAccessUnitDelimiter, 9, "AccessUnitDelimiter"},
		{h264.NALUTypeEndOfSequence, 10, "EndOfSequence"},
		{h264.NALUTypeEndOfStream, 11, "EndOfStream"},
		{h264.NALUTypeFillerData, 12, "FillerData"},
		{h264.NALUTypeSPSExtension, 13, "SPSExtension"},
		{h264.NALUTypePrefix, 14, "Prefix"},
		{h264.NALUTypeSubsetSPS, 15, "SubsetSPS"},
		{h264.NALUTypeReserved16, 16, "Reserved16"},
		{h264.NALUTypeReserved17, 17, "Reserved17"},
		{h264.NALUTypeReserved18, 18, "Reserved18"},
		{h264.NALUTypeSliceLayerWithoutPartitioning, 19, "SliceLayerWithoutPartitioning"},
		{h264.NALUTypeSliceExtension, 20, "SliceExtension"},
		{h264.NALUTypeSliceExtensionDepth, 21, "SliceExtensionDepth"},
		{h264.NALUTypeReserved22, 22, "Reserved22"},
		{h264.NALUTypeReserved23, 23, "Reserved23"},
		{h264.NALUTypeSTAPA, 24, "STAP-A"},
		{h264.NALUTypeSTAPB, 25, "STAP-B"},
		{h264.NALUTypeMTAP16, 26, "MTAP-16"},
		{h264.NALUTypeMTAP24, 27, "MTAP-24"},
		{h264.NALUTypeFUA, 28, "FU-A"},
		{h264.NALUTypeFUB, 29, "FU-B"},
	} {
		vnd.Assert(byte(x.typ) == x.n, "number of the type")
		if t == x.n {
			vnd.Assert(h264.NALUType(t).String() == x.name, "name of the type")
			known = true
		}
	}
	if !known {
		_ = h264.NALUType(t).String()
	}
	vnd.Reach("ok")
}
