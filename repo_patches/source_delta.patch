From 89b8fdaabf5ebca044a246d2dac37a726dc076f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 01/31] fix: errorsWithData: errors with data satisfy
 IncomparableMaker, so they can actually be boxed

---
 bandersnatch/errorsWithData/errorsWithData.go     |  2 ++
 .../errorsWithData/plainErrorWithParams.go        | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index dedb740..58d6686 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -270,6 +270,8 @@ type ErrorWithData_any interface {
 	ValidateError_Final() error                        // reports a non-nil error if there is a (recursive) syntax or missing variable problem in the interpolation string creating this error.
 	ValidateError_Base() error                         // same as ValidateError_Final, but ignores missing variables for $-syntax.
 	ValidateError_Params(params_passed ParamMap) error // same as ValidateError_Final, but use param_passed for any appearing $. Using params_passed == nil will use the error's own stored parameters (as opposed to an empty map).
+
+	IncomparableMaker // Any ErrorWithData_any can be boxed with [MakeErrorIncomparable] and its variants. Note that this requires an appropriate Is - method.
 }
 
 // ErrorInterpolater is an extension of the error interface that allows the error output to depend on additional data.
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..a1b8c67 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -86,6 +86,21 @@ func (e *errorWithParameters_common) Unwrap() error {
 	return e.wrapped_error
 }
 
+// Is is provided to satisfy [IncomparableMaker]. It makes [errors.Is] treat boxed (i.e. incomparable) errors like the errors they contain.
+func (e *errorWithParameters_common) Is(target error) bool {
+	return e == UnboxError(target)
+}
+
+// Is is provided to satisfy [IncomparableMaker]. It makes [errors.Is] treat boxed (i.e. incomparable) errors like the errors they contain.
+//
+// NOTE: The Is - method promoted from errorWithParameters_common would compare the wrong receiver.
+func (e *errorWithParameters_T[StructType]) Is(target error) bool {
+	return e == UnboxError(target)
+}
+
+// CanMakeIncomparable is provided to satisfy [IncomparableMaker]. It only serves as a marker.
+func (e *errorWithParameters_common) CanMakeIncomparable() {}
+
 // GetData_struct is provided to satisfy ErrorWithParameters[StructType].
 //
 // It constructs a value of type StructType from the provided parameters.
-- 
2.43.0


From 52c4573b474e1f3bb3ce8710687a04b44e615a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 02/31] fix: bandersnatchErrors, errorTransform: adapt to
 current errorsWithData API, re-export error data names

---
 .../bandersnatchErrors/serializer_errors.go    | 18 +++++++++++++++++-
 internal/errorTransform/error_transform.go     |  4 ++--
 internal/errorTransform/serializer_errors.go   |  2 +-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..4b7675a 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -16,6 +16,22 @@ type (
 	DeserializationError = errorconsts.DeserializationError
 )
 
+// Re-exported from errorconsts, see there for documentation.
+const (
+	FIELDNAME_PARTIAL_WRITE = errorconsts.FIELDNAME_PARTIAL_WRITE
+	FIELDNAME_PARTIAL_READ  = errorconsts.FIELDNAME_PARTIAL_READ
+	FIELDNAME_ACTUALLY_READ = errorconsts.FIELDNAME_ACTUALLY_READ
+	FIELDNAME_BYTES_READ    = errorconsts.FIELDNAME_BYTES_READ
+	FIELDNAME_BYTES_WRITTEN = errorconsts.FIELDNAME_BYTES_WRITTEN
+	FIELDNAME_IO_ERROR      = errorconsts.FIELDNAME_IO_ERROR
+)
+
+// Re-exported from errorconsts, see there for documentation.
+var (
+	NoReadAttempt  = errorconsts.NoReadAttempt
+	NoWriteAttempt = errorconsts.NoWriteAttempt
+)
+
 // This file contains common definitions of errors and error data that are not restricted to a single package.
 /*
 
@@ -94,5 +110,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From 9c53a4d4bc1d1a28d0a69a0635ca694aef44970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 03/31] fix: fieldElements: adapt to current errorsWithData API

---
 bandersnatch/fieldElements/field_element_bigInt.go     | 4 ++--
 bandersnatch/fieldElements/field_element_montgomery.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
-- 
2.43.0


From 2ecbd36e2eedd0ae1a6e5eb9404b99f31589f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 04/31] fix: curvePoints: adapt to current errorsWithData API

---
 bandersnatch/curvePoints/serializer_curve_field.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 23f7eed3c30c89bb24c075d42549d0c2f397aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 05/31] fix: pointserializer: adapt to current errorsWithData
 API

---
 .../pointserializer/headerSerializer.go       | 15 +++++---
 .../pointserializer/serialize_curve_point.go  | 30 ++++++++--------
 .../pointserializer/serialize_curve_points.go | 36 +++++++++----------
 bandersnatch/pointserializer/utils.go         |  7 ++--
 .../pointserializer/values_serializers.go     |  4 +--
 5 files changed, 50 insertions(+), 42 deletions(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 85f2b85..b4392e2 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -290,7 +290,7 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceHeader() []byte {
 func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reader) (bytesRead int, size int32, err bandersnatchErrors.DeserializationError) {
 	bytesRead, errCER := consumeExpectRead(input, shd.headerSlice[:])
 	if errCER != nil {
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, FIELDNAME_PARTIAL_READ, bytesRead != 0)
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0)
 		return
 	}
 	var buf [simpleHeaderSliceLengthOverhead]byte
@@ -299,9 +299,10 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	if errPlain != nil {
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
-			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
 			FIELDNAME_BYTES_READ, bytesJustRead,
+			FIELDNAME_IO_ERROR, true,
 		)
 		return
 	}
@@ -309,7 +310,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	var sizeUInt32 uint32 = shd.sliceSizeEndianness.Uint32(buf[:])
 	if sizeUInt32 > math.MaxInt32 {
 		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}",
-			"Size", sizeUInt32)
+			errorsWithData.ReplacePreviousData, "Size", sizeUInt32)
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.ReadErrorData{
 			PartialRead:  false,
 			BytesRead:    bytesJustRead,
@@ -368,7 +369,11 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceFooter() []byte {
 // addPartialReadInfo is a helper function that just "downcasts" the extra data type for the error.
 // This is because consumeExpectRead returns headerRead as additional data, which also contains ExpectedToRead.
 func fixReadErrorType(errIn errorsWithData.ErrorWithData[headerRead]) (errOut bandersnatchErrors.DeserializationError) {
-	return errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn)
+	errOut, ok := errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn, errorsWithData.EnsureDataIsPresent)
+	if !ok {
+		panic(ErrorPrefix + "could not convert error data obtained when reading a header or footer to ReadErrorData") // not supposed to be possible; see the call to CheckIsSubtype in utils.go
+	}
+	return
 }
 
 // deserializeGlobalSliceFooter reads from input and consumes the global slice footer
@@ -502,7 +507,7 @@ func (shd *simpleHeaderDeserializer) MultiPointHeaderOverhead(numPoints int32) (
 	// NOTE: ret64 is guaranteed to not have overflown an int64, since it is at most (2^31-1) * (2^31-1) + 4 + (2^31-1), which is smaller than 2^63-1
 	if ret64 > math.MaxInt32 {
 		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}",
-			"Size", ret64)
+			errorsWithData.ReplacePreviousData, "Size", ret64)
 	}
 	ret = int32(ret64)
 	return
diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 6af6811..047fd35 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -539,7 +539,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -558,7 +558,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerDeserializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -567,7 +567,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -583,7 +583,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -604,7 +604,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerSerializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -614,7 +614,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -628,7 +628,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 {
 			errorTransform.UnexpectEOF2(&err) // does nothing, actually, because err cannot be EOF for bytesWritten > 0
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -637,7 +637,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -646,7 +646,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 	}
 	return
@@ -740,18 +740,18 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err // we return -1 for the int32 in case of error here, as the actual value is meaningless. Note that that overhead might well be negative at this point anyway.
 
 	}
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
@@ -774,11 +774,11 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err
 
@@ -786,7 +786,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index ff2c44d..9e07ff7 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -96,7 +96,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 			}
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", "PointsDeserialized", i)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -143,7 +143,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
 				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w",
-				"PointsDeserialized", i)
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -196,7 +196,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
-				"PointsDeserialized", i,
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i,
 				FIELDNAME_PARTIAL_READ, true)
 			return
 		}
@@ -207,12 +207,12 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
-					"PointsDeserialized", i,
+					errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i,
 					FIELDNAME_PARTIAL_READ, true)
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
-					"PointsDeserialized", i)
+					errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i)
 			}
 			return
 		}
@@ -220,7 +220,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
 	}
@@ -252,7 +252,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 
 	// If reading the slice header fails, bail out
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1) // create a dummy value for output
 		return
@@ -290,7 +290,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -319,7 +319,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 
 	bytesRead, size, errNonBatch = md.headerSerializer.deserializeGlobalSliceHeader(inputStream)
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1)
 		return
@@ -351,7 +351,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -416,13 +416,13 @@ func UseExistingSlice[PointType any, PointTypePtr interface {
 			if cap(existingSlice) < int(length) {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
 					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}",
-					"BufferSize", targetSliceLen,
+					errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
 					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}",
-					"BufferSize", targetSliceLen,
+					errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			}
@@ -471,7 +471,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoints(outputStream io.Writ
 			}
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errSingle,
 				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w",
-				"PointsSerialized", i)
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", i)
 			return
 		}
 	}
@@ -502,7 +502,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	if errHeader != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errHeader,
 			ErrorPrefix+"failed to write slice header. Error was %w",
-			"PointsSerialized", 0,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", 0,
 			"PartialWrite", bytesWritten != 0)
 		return
 	}
@@ -523,7 +523,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
 				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
-				"PointsSerialized", i,
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
 		}
@@ -534,7 +534,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
 				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
-				"PointsSerialized", i,
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
 		}
@@ -545,7 +545,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
 				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
-				"PointsSerialized", i+1,
+				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", i+1,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
 		}
@@ -557,7 +557,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	if errNonBatch != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
 			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
-			"PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
 			FIELDNAME_PARTIAL_WRITE, true)
 		return
 	}
diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 526a0c1..abb3680 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -15,6 +15,7 @@ const FIELDNAME_PARTIAL_READ = bandersnatchErrors.FIELDNAME_PARTIAL_READ
 const FIELDNAME_PARTIAL_WRITE = bandersnatchErrors.FIELDNAME_PARTIAL_WRITE
 const FIELDNAME_ACTUALLY_READ = bandersnatchErrors.FIELDNAME_ACTUALLY_READ
 const FIELDNAME_BYTES_READ = bandersnatchErrors.FIELDNAME_BYTES_READ
+const FIELDNAME_IO_ERROR = bandersnatchErrors.FIELDNAME_IO_ERROR
 
 // additional data contained in errors returned by consumeExpectRead. Note that this "extends" bandersnatchErrors.ReadErrorData
 type headerRead struct {
@@ -22,6 +23,7 @@ type headerRead struct {
 	ActuallyRead   []byte
 	ExpectedToRead []byte
 	BytesRead      int
+	IoError        bool
 }
 
 func init() {
@@ -92,7 +94,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
@@ -171,9 +173,10 @@ func writeFull(output io.Writer, data []byte) (bytesWritten int, err bandersnatc
 	bytesWritten, errPlain := output.Write(data)
 	if errPlain != nil {
 		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w",
-			"Data", copyByteSlice(data),
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "Data", copyByteSlice(data),
 			bandersnatchErrors.FIELDNAME_BYTES_WRITTEN, bytesWritten,
 			FIELDNAME_PARTIAL_WRITE, bytesWritten != 0 && bytesWritten < len(data),
+			FIELDNAME_IO_ERROR, true,
 		)
 	} // else err == nil
 	return
diff --git a/bandersnatch/pointserializer/values_serializers.go b/bandersnatch/pointserializer/values_serializers.go
index 4374426..3355ce0 100644
--- a/bandersnatch/pointserializer/values_serializers.go
+++ b/bandersnatch/pointserializer/values_serializers.go
@@ -73,7 +73,7 @@ func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadP
 	if *errPtr != nil {
 		var bytesRead int = *bytesReadPtr
 		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr,
-			FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
 			// NOTE: We do not update the "BytesRead" metadata in the error. This is intentional: "BytesRead" refers to the failing sub-call.
 		)
 	}
@@ -86,7 +86,7 @@ func updateWriteError(errPtr *bandersnatchErrors.SerializationError, bytesWritte
 	if *errPtr != nil {
 		var bytesWritten int = *bytesWrittenPtr
 		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr,
-			FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
 			// NOTE: We do not update the "BytesWritten" metadata in the error. This is intentional: "BytesWritten" refers to the failing sub-call.
 		)
 	}
-- 
2.43.0


From f37bb49204c14b52fffb4c5f00879dfb0212f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 06/31] fix: fieldElements: Uint256 Deserialize*_Buffer consume
 the data they read; *_Buffer and *_Bytes report bytesRead

---
 bandersnatch/fieldElements/uint256_serialize.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..a32ea5e 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -209,8 +209,9 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 		return z.Deserialize(input, byteOrder)
 	}
 
-	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	// Write to z. Note that Next (as opposed to Bytes) consumes the data from the buffer.
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -222,6 +223,7 @@ func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianne
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -285,7 +287,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return
 	}
 
-	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Bytes()
+	// Optimization: Instead of copying the data into buf, we check for the correct size and then read directly from the underlying wrapped []byte via input.Next()
 
 	// check that the input has sufficient size
 	if inputSize := input.Len(); inputSize < 32 {
@@ -294,8 +296,9 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 		return z.DeserializeAndGetPrefix(input, prefixLength, byteOrder)
 	}
 
-	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	// Write to z. Note that Next (as opposed to Bytes) consumes the data from the buffer.
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z))
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -324,6 +327,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From 0fd7b988accc11a7832d22efbee6672b266c4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 07/31] fix: fieldElements: set IoError flag in the error data
 of I/O errors during (de)serialization

---
 bandersnatch/fieldElements/field_element_serialize.go | 9 +++++++--
 bandersnatch/fieldElements/uint256_serialize.go       | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_serialize.go b/bandersnatch/fieldElements/field_element_serialize.go
index 791cf30..b5b0165 100644
--- a/bandersnatch/fieldElements/field_element_serialize.go
+++ b/bandersnatch/fieldElements/field_element_serialize.go
@@ -204,7 +204,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) Serialize(output io.Writer, byteOrd
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten, IoError: true})
 	return
 }
 
@@ -247,7 +247,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) SerializeWithPrefix(output io.Write
 	var buf []byte = make([]byte, 32)
 	byteOrder.PutUint256(buf, zUint256)
 	bytesWritten, errPlain = output.Write(buf)
-	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten})
+	err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.WriteErrorData{PartialWrite: bytesWritten != 0 && bytesWritten != 32, BytesWritten: bytesWritten, IoError: true})
 	return
 }
 
@@ -310,12 +310,14 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 	var buf [32]byte                  // for receiving the input of io.ReadFull
 
 	var errPlain error // errors returned to this function;
+	var ioError bool   // set to true if errPlain comes from input
 	// automatically fill err from errPlain at the end
 	defer func() {
 		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      ioError,
 		})
 	}()
 	expectedPrefixLength := expectedPrefix.PrefixLen()
@@ -325,6 +327,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 	if byteOrder.StartsWithMSB() {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:1])
 		if errPlain != nil { // ioError (most likely EOF)
+			ioError = true
 			return
 		}
 		if buf[0]>>(8-expectedPrefixLength) != byte(expectedPrefixBits) {
@@ -335,12 +338,14 @@ func (z *bsFieldElement_MontgomeryNonUnique) DeserializeWithExpectedPrefix(input
 		bytes_just_read, errPlain = io.ReadFull(input, buf[1:32])
 		bytesRead += bytes_just_read
 		if errPlain != nil {
+			ioError = true
 			errorTransform.UnexpectEOF(&errPlain) // Replace io.EOF -> io.ErrUnexpectedEOF
 			return
 		}
 	} else {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:32])
 		if errPlain != nil {
+			ioError = true
 			return
 		}
 	}
diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index a32ea5e..1c97b1b 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -190,6 +190,7 @@ func (z *Uint256) Deserialize(input io.Reader, byteOrder FieldElementEndianness)
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      true,
 		})
 		return
 	}
@@ -259,6 +260,7 @@ func (z *Uint256) DeserializeAndGetPrefix(input io.Reader, prefixLength uint8, b
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      true,
 		})
 		return
 	}
@@ -354,12 +356,14 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 	var buf [32]byte    // for receiving the input of io.ReadFull
 
 	var errPlain error // errors returned to this function;
+	var ioError bool   // set to true if errPlain comes from input
 	// automatically fill err from errPlain at the end
 	defer func() {
 		err = errorsWithData.AddDataToError_struct(errPlain, &bandersnatchErrors.ReadErrorData{
 			PartialRead:  bytesRead != 0 && bytesRead != 32,
 			BytesRead:    bytesRead,
 			ActuallyRead: buf[0:bytesRead],
+			IoError:      ioError,
 		})
 	}()
 
@@ -370,6 +374,7 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 	if byteOrder.StartsWithMSB() {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:1])
 		if errPlain != nil { // ioError (most likely EOF)
+			ioError = true
 			return
 		}
 		if buf[0]>>(8-expectedPrefixLength) != byte(expectedPrefixBits) {
@@ -380,12 +385,14 @@ func (z *Uint256) DeserializeWithExpectedPrefix(input io.Reader, expectedPrefix
 		bytes_just_read, errPlain = io.ReadFull(input, buf[1:32])
 		bytesRead += bytes_just_read
 		if errPlain != nil {
+			ioError = true
 			errorTransform.UnexpectEOF(&errPlain) // Replace io.EOF -> io.ErrUnexpectedEOF
 			return
 		}
 	} else {
 		bytesRead, errPlain = io.ReadFull(input, buf[0:32])
 		if errPlain != nil {
+			ioError = true
 			return
 		}
 	}
-- 
2.43.0


From 6ab8ee50047668272a402d5e56a5469bb2aee761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 08/31] fix: exponents: Neg uses its argument (not the
 receiver), ModuloP253 computes z - p253 (not p253 - z)

---
 bandersnatch/exponents/exponents.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From 29a9bdc719c25cd867a8ac5683c1d6a52d003ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 09/31] fix: xtw SetFromSubgroupPoint keeps the receiver
 unchanged when refusing a NaP

As documented (and as the other point types do): on failure, the receiver
is unchanged.
---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..1730a07 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1064,7 +1064,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1106,7 +1105,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From 44dc629c964af2bd2a42ca3ba3805b244579c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 10/31] fix: IsInSubgroup reports NaPs to the handler for all
 point types

The interface demands that all Is... methods check for NaPs. Point_efgh_full
and the subgroup types did not, and answered true for uninitialized points.
---
 bandersnatch/curvePoints/curve_point_axtw.go       | 10 ++++++++++
 bandersnatch/curvePoints/curve_point_doubleproj.go | 13 +++++++++++++
 bandersnatch/curvePoints/curve_point_xtw.go        | 10 ++++++++++
 3 files changed, 33 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_axtw.go b/bandersnatch/curvePoints/curve_point_axtw.go
index 9380b7f..4eff467 100644
--- a/bandersnatch/curvePoints/curve_point_axtw.go
+++ b/bandersnatch/curvePoints/curve_point_axtw.go
@@ -429,6 +429,16 @@ func (p *point_axtw_base) toDecaf_axtw() (ret point_axtw_base) {
 }
 */
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+//
+// Since the type can only represent points in the subgroup, this is true for every point that is not a NaP.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_axtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..6c53890 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1110,8 +1110,21 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	}
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+//
+// Since the type can only represent points in the subgroup, this is true for every point that is not a NaP.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index 1730a07..b5bf5e5 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -585,6 +585,16 @@ func (p *point_xtw_base) T_decaf_affine() FieldElement {
 	return p.t
 }
 
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+//
+// Since the type can only represent points in the subgroup, this is true for every point that is not a NaP.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
+	return true
+}
+
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_xtw_full) IsInSubgroup() bool {
 	if p.IsNaP() {
-- 
2.43.0


From 8d6af78891cf199033527a390878dd4231d69166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 11/31] fix: efgh endomorphism of a NaP is a NaP whatever the
 NaP handler answers

Point_efgh_full.EndoEq asked IsAtInfinity first, so a handler answering true
turned a NaP into the affine order two point (p.Endo(&p) does not). The generic
branch of Point_efgh_subgroup.Endo likewise went on with the NaP.
---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 6c53890..b59c5dc 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -857,6 +857,8 @@ func (p *Point_efgh_subgroup) Endo(input CurvePointPtrInterfaceRead) {
 		ensureSubgroupOnly(input)
 		if input.IsNaP() {
 			napEncountered("Computing endomorphism of NaP", false, input)
+			p.point_efgh_base = point_efgh_base{}
+			return
 		}
 		if input.IsNeutralElement() {
 			p.point_efgh_base = neutralElement_efghbase
@@ -976,6 +978,11 @@ func (p *Point_efgh_subgroup) EndoEq() {
 //
 // p.EndoEq() is equivalent to p.Endo(&p).
 func (p *Point_efgh_full) EndoEq() {
+	if p.IsNaP() {
+		napEncountered("Computing endomorphism of NaP", false, p)
+		p.point_efgh_base = point_efgh_base{}
+		return
+	}
 	if p.IsAtInfinity() {
 		p.point_efgh_base = orderTwoPoint_efghbase
 	} else {
-- 
2.43.0


From 092ca36a052d31628c036a95cc88e0dde91eca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 12/31] fix: error message of CurvePointFromXAndSignY refers to
 a parameter that does not exist

---
 bandersnatch/curvePoints/serializer_curve_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..626bb20 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
-- 
2.43.0


From 414aac23e21a3606f2b3cb45bc444d006aa178ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 13/31] fix: CurvePointFromYAndSignX_subgroup loses its inputs
 in the error data

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 626bb20..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 471eebbc84876acdbe591e65191e46ada41ee1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 14/31] fix: parse error inside two or more nested conditions
 makes the interpolation string parser panic

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From 2e58388fa1c8dfd5349a0dabf6bef8d8b849dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 15/31] fix: ValidateError_Params(nil) panics, so validating an
 error that refers to a wrapped error with data by %w panics

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index a1b8c67..4392058 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -266,5 +266,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From f069f8a522bc436c08117638d4c9ae23e09d0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 16/31] fix: error validation reports %v{!m} and the other map
 selectors as missing parameters

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..51ae0ce 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -348,7 +348,7 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -359,7 +359,7 @@ func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ Pa
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
 	_, ok := parameters_direct[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
@@ -376,7 +376,7 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
 	_, ok := parameters_passed[a.variableName]
-	if !ok {
+	if !ok && !utils.ElementInList(a.variableName, validMapSelectors[:]) {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
 	}
 	return nil
-- 
2.43.0


From f7ae5779e5e950bd210b9b8a00afe31371356b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 17/31] fix: data race when an error with data is first printed
 or validated by several goroutines

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 4392058..0d0b04b 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -155,6 +155,8 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+	// Post-process right away: this modifies the tree and must not happen (concurrently) when the error is first printed or validated.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From a161bc9c00e24b99f2b2a75e0bd6313dc5110759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 18/31] fix: unescaped braces in the ErrInvalidSign message of
 CurvePointFromYAndSignX

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..afdaf14 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from \\{-1,0,+1\\}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 98ea13f91421b4ac48700374f8d2001bc95a8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 19/31] fix: NewErrorWithData_struct with PreferPreviousData
 returns an ErrorWithData[T] that does not contain a T

---
 bandersnatch/errorsWithData/modify_errors.go        | 1 +
 bandersnatch/errorsWithData/plainErrorWithParams.go | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/modify_errors.go b/bandersnatch/errorsWithData/modify_errors.go
index 04c6bad..16c731a 100644
--- a/bandersnatch/errorsWithData/modify_errors.go
+++ b/bandersnatch/errorsWithData/modify_errors.go
@@ -29,6 +29,7 @@ import (
 // For baseError == nil, interpolationString == "", this function panics.
 // For baseError == nil, interpolationString != "", creates a new error that does not wrap an error.
 // The function also panics if StructType is unsuited (e.g. contains unexported fields)
+// or if pre-existing parameters that take precedence have the wrong type for StructType.
 func NewErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode ...PreviousDataTreatment) ErrorWithData[StructType] {
 	if len(mode) > 1 {
 		panic(ErrorPrefix + "called NewErrorWithData_struct with more than 1 mode")
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index 0d0b04b..a64edc0 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -211,11 +211,16 @@ func deleteParameterFromError[StructType any](baseError error, interpolationStri
 // mode controls how already-present data in baseError should be handled.
 //
 // The function may panic if called with invalid StructType, so StructType should be checked by the caller beforehand.
-// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error.
+// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error
+// or if mode==[PreferPreviousData] and there is data of wrong type for StructType in base error.
 func newErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode PreviousDataTreatment) (ret *errorWithParameters_T[StructType]) {
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+	// With mode == PreferPreviousData, baseError's data takes precedence over *data and need not fit StructType.
+	if err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent); err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From e1743c50661993e0b070a717ecd52aa124bd8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 20/31] fix: invalid conditions and variable names inside
 conditions are not detected; printing or validating nested ones panics

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 51ae0ce..5881ae9 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -202,14 +202,18 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // It checks that the strings given as format verbs, conditions, variable names satisfy specific constraints
 // and ensures that errors are handled correctly later.
 //
-// For ast_cond, we just flag the conditional as invalid on failure.
+// For ast_cond, we recurse into the child and flag the conditional as invalid on failure.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	errChild := abase.child.handleSyntaxConditions()
+	if errChild != nil {
+		abase.make_invalid(1) // display children unconditionally, such that the condition does not hide the problem.
+	}
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
 	} else {
-		return nil
+		return errChild
 	}
 }
 
-- 
2.43.0


From 01fdf9f57ab44fe55521bd6ea1216cbc123a1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 21/31] fix: slice deserialization reports mid-slice EOF and
 PartialRead correctly

---
 .../pointserializer/serialize_curve_points.go  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 9e07ff7..1f6852f 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -194,6 +194,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointHeader(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // the slice header was already read, so an EOF is always unexpected here.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
 				errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i,
@@ -204,7 +205,9 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_point.DeserializeCurvePoint(inputStream, trustLevel, targetSlice.GetByIndex(i))
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
+			errorTransform.UnexpectEOF2(&errNonBatch) // the slice header was already read, so an EOF is always unexpected here.
+			// Unless this was the last point and there is nothing left to read after it, we are always left in the middle of a slice.
+			if i != size-1 || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
 					errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i,
@@ -220,7 +223,10 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			errorTransform.UnexpectEOF2(&errNonBatch) // the slice header was already read, so an EOF is always unexpected here.
+			// If this was the last footer and there is no global footer, everything might have been consumed (if the footer was read, but did not match); errNonBatch's flag is correct then.
+			partialRead := i != size-1 || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, partialRead)
 			return
 		}
 	}
@@ -290,7 +296,9 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
+		errorTransform.UnexpectEOF2(&errNonBatch) // the slice header was already read, so an EOF is always unexpected here.
+		partialRead := bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size), FIELDNAME_PARTIAL_READ, partialRead)
 		return
 	}
 
@@ -351,7 +359,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
+		errorTransform.UnexpectEOF2(&errNonBatch) // the slice header was already read, so an EOF is always unexpected here.
+		partialRead := bytesJustRead == 0 || errNonBatch.GetData_struct().PartialRead
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size), FIELDNAME_PARTIAL_READ, partialRead)
 		return
 	}
 
-- 
2.43.0


From 9e04fe4bb720c51e7101a650e36688823f0e7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 22/31] fix: I/O errors when writing a slice header set IoError

---
 bandersnatch/pointserializer/headerSerializer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index b4392e2..4c72e97 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -335,6 +335,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesWritten,
 			PartialWrite: bytesWritten != 0,
+			IoError:      true,
 		})
 		return
 	}
@@ -349,6 +350,7 @@ func (shs *simpleHeaderSerializer) serializeGlobalSliceHeader(output io.Writer,
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.WriteErrorData{
 			BytesWritten: bytesJustWritten,
 			PartialWrite: bytesJustWritten != simpleHeaderSliceLengthOverhead,
+			IoError:      true,
 		})
 		return
 	}
-- 
2.43.0


From bc81eded655f852f6d002db1340171b7f91a7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 23/31] fix: ActuallyRead of a short slice length read contains
 only what was read

---
 bandersnatch/pointserializer/headerSerializer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 4c72e97..01ed31a 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -300,7 +300,7 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
 		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
 			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
-			FIELDNAME_ACTUALLY_READ, buf[:],
+			FIELDNAME_ACTUALLY_READ, buf[:bytesJustRead],
 			FIELDNAME_BYTES_READ, bytesJustRead,
 			FIELDNAME_IO_ERROR, true,
 		)
-- 
2.43.0


From b42078bca128c1de1f752a1406f05feee3088112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 24/31] fix: SliceOutputLength overflow error refers to
 existing data

---
 bandersnatch/pointserializer/serialize_curve_point.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 047fd35..9f0fe5a 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -738,9 +738,9 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		// TODO: Guarantee Size parameter via the type system to make that check obsolete?
 
-		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
+		overheadSize, OverheadSizeExists := errorsWithData.GetParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{OverheadSize}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64, "OverheadSize", overheadSize)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
@@ -772,9 +772,9 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		// TODO: Guarantee Size parameter via the type system to make that check obsolete?
 
-		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
+		overheadSize, OverheadSizeExists := errorsWithData.GetParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{OverheadSize}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64, "OverheadSize", overheadSize)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-- 
2.43.0


From 210a6c81043413fc8715d60804877d564dd4c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 25/31] fix: DeserializeCurvePoint leaves its target alone if
 the footer cannot be read

---
 .../pointserializer/serialize_curve_point.go  | 47 +++++++++++--------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 9f0fe5a..b72bc11 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -516,24 +516,29 @@ func (md *multiSerializer[_, _, _, _]) WithEndianness(newEndianness binary.ByteO
 	return md.WithParameter("Endianness", newEndianness)
 }
 
-// TODO: We would prefer to specify that on error, outputPoint is unchanged.
-// Unfortunately, this is quite hard to achieve -- either we would need to store a backup copy of the point
-// in case the footer deserializer returns an error or we would need to write to a temporary point.
-// For the first solution: Unfortunately, the CurvePointPtr interface does not really allow to do that at the moment:
-// The issue is that backing up the point with .Clone() and restoring with .SetFrom(...) is not really correct:
-// outputPoint might be (in fact likely is!) a NaP and we have no guarantee that Clone() or SetFrom works for those.
-// We would need a raw ToBytes / FromBytes interface here.
+// delayedSetFrom wraps a point to be written to. Its SetFrom method only remembers (a copy of) what should be written.
 //
-// Deserializing to a temporary and only writing to outputPoint on success has the problem that the dynamic type passed to
-// basicDeserializer.DeserializeCurvePoint is relevant for this method's behaviour. So our temporary point would need to have the same dynamic type
-// as outputPoint -- and we have no good way of doing that (Clone may not work for NaPs, reflection is not a "good way").
-//
-// -> TODO: Either add a raw ToBytes / FromBytes or specify that Clone works for NaPs.
+// Basic deserializers only write via SetFrom and only do so on success. We use this to ensure that DeserializeCurvePoint does not modify its target
+// if reading the footer fails after having read the point itself. Note that all other methods (most notably CanOnlyRepresentSubgroup) are forwarded to the wrapped point.
+type delayedSetFrom struct {
+	curvePoints.CurvePointPtrInterfaceWrite
+	value curvePoints.CurvePointPtrInterface
+}
+
+// SetFrom stores a copy of input without modifying the wrapped point.
+func (d *delayedSetFrom) SetFrom(input curvePoints.CurvePointPtrInterfaceRead) {
+	d.value = input.Clone()
+}
+
+// commit performs the actual write to the wrapped point.
+func (d *delayedSetFrom) commit() {
+	d.CurvePointPtrInterfaceWrite.SetFrom(d.value)
+}
 
 // DeserializeCurvePoint deserializes a single curve point from input stream, (over-)writing to ouputPoint.
 // trustLevel indicates whether the input is to be trusted that the data represents any (subgroup)point at all.
 //
-// On error, outputPoint may or may not be changed.
+// On error, outputPoint is unchanged.
 func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 	bytesRead, err = md.headerDeserializer.deserializeSinglePointHeader(inputStream)
 	if err != nil {
@@ -544,9 +549,9 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		return
 	}
 
-	// originalPoint := outputPoint.Clone() // needed to undo changes on error.
+	delayedOutput := &delayedSetFrom{CurvePointPtrInterfaceWrite: outputPoint} // ensures outputPoint is only written to after the footer was read.
 
-	bytesJustRead, err := md.basicDeserializer.DeserializeCurvePoint(inputStream, trustLevel, outputPoint)
+	bytesJustRead, err := md.basicDeserializer.DeserializeCurvePoint(inputStream, trustLevel, delayedOutput)
 	bytesRead += bytesJustRead
 	if err != nil {
 		// if we read something, but are not finished, the correct error is UnexpectedEOF rather than EOF.
@@ -569,15 +574,16 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		if bytesJustRead == 0 {
 			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
-		// outputPoint.SetFrom(originalPoint)
+		return
 	}
+	delayedOutput.commit()
 	return
 }
 
 // DeserializeCurvePoint deserializes a single curve point from input stream, (over-)writing to ouputPoint.
 // trustLevel indicates whether the input is to be trusted that the data represents any (subgroup)point at all.
 //
-// On error, outputPoint may or may not be changed.
+// On error, outputPoint is unchanged.
 func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Reader, trustLevel common.IsInputTrusted, outputPoint curvePoints.CurvePointPtrInterfaceWrite) (bytesRead int, err bandersnatchErrors.DeserializationError) {
 	bytesRead, err = md.headerSerializer.deserializeSinglePointHeader(inputStream)
 	if err != nil {
@@ -589,9 +595,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		return
 	}
 
-	// originalPoint := outputPoint.Clone() // needed to undo changes on error.
+	delayedOutput := &delayedSetFrom{CurvePointPtrInterfaceWrite: outputPoint} // ensures outputPoint is only written to after the footer was read.
 
-	bytesJustRead, err := md.basicSerializer.DeserializeCurvePoint(inputStream, trustLevel, outputPoint)
+	bytesJustRead, err := md.basicSerializer.DeserializeCurvePoint(inputStream, trustLevel, delayedOutput)
 	bytesRead += bytesJustRead
 	if err != nil {
 
@@ -616,8 +622,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		if bytesJustRead == 0 {
 			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
-		// outputPoint.SetFrom(originalPoint)
+		return
 	}
+	delayedOutput.commit()
 	return
 
 }
-- 
2.43.0


From 9184d1ad8ca2da861e1998d9721a467d1f41b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 26/31] fix: DoesMethodExist handles interface types

For interface types, reflect.Method.Type does not include the receiver. As a
consequence, pointserializer.WithParameter always panicked when called on the
exported serializers, whose types are all interfaces.
---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..08bd5f4 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
+	// The exception are interface types, where method.Type does not contain the receiver.
+	firstInput := 1
+	if receiverType.Kind() == reflect.Interface {
+		firstInput = 0
+	}
+	if methodType.NumIn() != len(inputs)+firstInput {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-firstInput)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + firstInput)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+firstInput)))
 		}
 	}
 
-- 
2.43.0


From da1e6ea6030dde6241a3e1634238920e0a7d0864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 27/31] fix: pointserializer: PartialRead when a header read
 fails with an EOF-like error

The flag was derived from the kind of error. A reader may report
io.ErrUnexpectedEOF without having delivered anything, or an error wrapping
io.EOF after having delivered some bytes.
---
 bandersnatch/pointserializer/utils.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index abb3680..f48a260 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -96,24 +96,23 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
 		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
+		// NOTE: io.ReadFull guarantees bytes_read < l, since errors after full reads are dropped.
+		// We do not derive this from the type of error, because input might itself report io.ErrUnexpectedEOF without giving any data or (a wrapped) io.EOF after having given some.
+		returnedErrorData.PartialRead = (bytes_read > 0)
+
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
 			message := fmt.Sprintf(ErrorPrefix+"Unexpected EOF after reading %%v{BytesRead} out of %v bytes when reading header.\nReported error was %%w.\nBytes expected were 0x%%x{ExpectedToRead}, got 0x%%x{ActuallyRead}", len(expectToRead))
-			returnedErrorData.PartialRead = true
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else if errors.Is(err, io.EOF) {
 			message := ErrorPrefix + "EOF when trying to read buffer.\nExpected to read 0x%x{ExpectedToRead}, got EOF instead"
 
-			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is io.EOF
-
-			returnedErrorData.ActuallyRead = make([]byte, 0)
-			returnedErrorData.PartialRead = false
+			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is (exactly) io.EOF
 
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else { // other io error
-			returnedErrorData.PartialRead = (bytes_read > 0) // NOTE: io.ReadFull guarantees bytes_read < l, since errors after full reads are dropped.
 			returnedError = errorsWithData.NewErrorWithData_struct(err, "", &returnedErrorData)
 			return
 		}
-- 
2.43.0


From 1f912a13a3e336f21cbcbc99fd79700300334c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 28/31] fix: doubling a curve point of a type implemented
 outside the package silently kept the receiver's old value

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index b59c5dc..b200fcd 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -796,6 +796,11 @@ func (p *point_efgh_base) Double(x CurvePointPtrInterfaceRead) {
 		p.double_ss(&x.point_efgh_base)
 	case *Point_efgh_subgroup:
 		p.double_ss(&x.point_efgh_base)
+	default:
+		// Not one of our own types. Note that Point_efgh_full can hold any point; SetFrom handles NaPs and points at infinity.
+		var x_conv Point_efgh_full
+		x_conv.SetFrom(x)
+		p.double_ss(&x_conv.point_efgh_base)
 	}
 }
 
-- 
2.43.0


From 7027d883c31d9981b8296cca8c2548519ce904a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:01 +0000
Subject: [PATCH 29/31] fix: _fromBigInt converts to Montgomery representation,
 not from it

---
 bandersnatch/fieldElements/field_element_montgomery.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index 117511e..0e56414 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -235,14 +235,10 @@ func (z *bsFieldElement_MontgomeryNonUnique) SetBigInt(v *big.Int) {
 //
 // The input may be arbitrariliy large or negative and will automatically be reduced modulo BaseFieldSize.
 func (z *bsFieldElement_MontgomeryNonUnique) _fromBigInt(v *big.Int) {
-	sign := v.Sign()
-	w := new(big.Int).Abs(v)
-	w.Mod(w, baseFieldSize_Int)
+	w := new(big.Int).Mod(v, baseFieldSize_Int) // in [0, BaseFieldSize), even for negative v
 	z.words.SetBigInt(w)
-	z.words.FromMontgomeryRepresentation_fc(&z.words)
-	if sign < 0 {
-		z.words.Sub(&baseFieldSize_uint256, &z.words)
-	}
+	z.words.ConvertToMontgomeryRepresentation_c(&z.words)
+	z.words.Reduce_fb()
 	// Note: z is fully normalized
 }
 
-- 
2.43.0


From c0b3a09134a80acee451b476676a941480cda458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 30/31] fix: reciprocal of a modulus below 2^193 could be one
 too small

---
 bandersnatch/fieldElements/modulus.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index 777efc1..9af9905 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -495,6 +495,16 @@ func (z *modulus) reciprocal() {
 	if p < 0 {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
 		p = 0 // avoid negative shift below
+
+		// Doubling always gives an even number, so the least significant bit of 2^512/m is still to be found:
+		// It is set iff 2^512 - r4*m >= m. Note that 2^512 - r4*m < 2*m < 2^194 here, so computing modulo 2^256 is enough.
+		m := Uint256(z.m)
+		var remainder Uint256
+		remainder.Mul(&Uint256{r4l, r4k, r4j, r4i}, &m)
+		remainder.Sub(&Uint256{}, &remainder)
+		if !remainder.IsLessThan(&m) {
+			r4l++ // no carry, as r4l is even
+		}
 	}
 
 	// Shift right 0-62 bits
-- 
2.43.0


From 6c1d91ce641bf80ba9bfcb331f25e85d71385c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 31/31] fix: reciprocal of some moduli was one too large, as a
 correction was undone

---
 bandersnatch/fieldElements/modulus.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index 9af9905..876235a 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -454,7 +454,8 @@ func (z *modulus) reciprocal() {
 	x4, _ = bits.Sub64(r4h, 0, t)
 
 	// commit the decrement if the subtraction underflowed (reciprocal was too large)
-	if b != 0 {
+	tooLarge := b != 0
+	if tooLarge {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
 	}
 
@@ -478,7 +479,8 @@ func (z *modulus) reciprocal() {
 	x4, _ = bits.Add64(r4h, 0, t)
 
 	// commit the increment if the subtraction did not underflow (reciprocal was too small)
-	if b == 0 {
+	// (if the reciprocal was too large, q is negative and wrapped around)
+	if b == 0 && !tooLarge {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
 	}
 
-- 
2.43.0

