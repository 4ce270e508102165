package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	VerifParts["Vhfhf"] = func() interface{} {
		return &valuesSerializerHeaderFeHeaderFe{fieldElementEndianness: common.DefaultEndian}
	}
}
