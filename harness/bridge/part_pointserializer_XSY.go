package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	s := &pointSerializerXAndSignY{valuesSerializerFeCompressedBit: valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}}
	VerifSer["XSY"] = newMultiSerializer(s, trivialSimpleHeaderSerializer)
	VerifDes["XSY"] = newMultiDeserializer(s, trivialSimpleHeaderDeserializer)
	VerifParts["PXSY"] = func() interface{} { c := *s; return &c }
}
