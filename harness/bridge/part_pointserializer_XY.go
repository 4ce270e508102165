package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	s := &pointSerializerXY{valuesSerializerHeaderFeHeaderFe: valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: common.DefaultEndian}}
	VerifSer["XY"] = newMultiSerializer(s, trivialSimpleHeaderSerializer)
	VerifDes["XY"] = newMultiDeserializer(s, trivialSimpleHeaderDeserializer)
	VerifParts["PXY"] = func() interface{} { c := *s; return &c }
}
