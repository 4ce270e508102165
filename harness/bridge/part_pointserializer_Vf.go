package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	VerifParts["Vf"] = func() interface{} { return &valuesSerializerFe{fieldElementEndianness: common.DefaultEndian} }
}
