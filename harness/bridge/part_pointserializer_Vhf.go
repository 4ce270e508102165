package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	VerifParts["Vhf"] = func() interface{} { return &valuesSerializerHeaderFe{fieldElementEndianness: common.DefaultEndian} }
}
