package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	s := &pointSerializerXTimesSignY{valuesSerializerHeaderFe: valuesSerializerHeaderFe{fieldElementEndianness: common.DefaultEndian}}
	VerifSer["XtS"] = newMultiSerializer(s, trivialSimpleHeaderSerializer)
	VerifDes["XtS"] = newMultiDeserializer(s, trivialSimpleHeaderDeserializer)
	VerifParts["PXtS"] = func() interface{} { c := *s; return &c }
}
