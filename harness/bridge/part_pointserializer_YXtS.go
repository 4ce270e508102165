package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	s := &pointSerializerYXTimesSignY{valuesSerializerHeaderFeHeaderFe: valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: common.DefaultEndian}}
	VerifSer["YXtS"] = newMultiSerializer(s, trivialSimpleHeaderSerializer)
	VerifDes["YXtS"] = newMultiDeserializer(s, trivialSimpleHeaderDeserializer)
	VerifParts["PYXtS"] = func() interface{} { c := *s; return &c }
}
