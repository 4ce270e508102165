package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

func init() {
	VerifParts["Vfb"] = func() interface{} {
		return &valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}
	}
}
