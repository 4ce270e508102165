package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	VerifParts["Vff"] = func() interface{} { return &valuesSerializerFeFe{fieldElementEndianness: common.DefaultEndian} }
}
