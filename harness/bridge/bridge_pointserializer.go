package pointserializer

// Laid into package pointserializer by the overlay; the parts fill these maps with
// serializers (and deserializers) with trivial settings over each of the basic point serializers.
var (
	VerifSer = map[string]CurvePointSerializerModifyable{}
	VerifDes = map[string]CurvePointDeserializerModifyable{}
	// the serializers of bare values (V) and single points (P); the first letter of the key
	// says which, the rest is for V what is written: h a bit header, f a field element, b a bit
	// in the field element.
	VerifParts = map[string]func() interface{}{}
)
