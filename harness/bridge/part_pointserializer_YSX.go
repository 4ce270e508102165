package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	s := &pointSerializerYAndSignX{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}}
	VerifSer["YSX"] = newMultiSerializer(s, trivialSimpleHeaderSerializer)
	VerifDes["YSX"] = newMultiDeserializer(s, trivialSimpleHeaderDeserializer)
	VerifParts["PYSX"] = func() interface{} { c := *s; return &c }
}
