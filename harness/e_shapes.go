package main

// Code generated by tools/gen_shapes.py. DO NOT EDIT.

type sh0 struct {
	F2 *int
	F1 uint8
	F0 [2]uint16
}

type sh1L1_1 struct {
	F2 *int
}

type sh1 struct {
	F1 int
	F0 uint8
	sh1L1_1
}

type sh2L2_2 struct {
	F3 bool
	F1 *int
	F0 uint8
}

type sh2L1_1 struct {
	F0 uint8
	F2 *int
	sh2L2_2
	F1 map[string]int
}

type sh2 struct {
	sh2L1_1
}

type sh3L4_4 struct {
	F8 uint8
	F7 map[string]int
	F6 int
}

type sh3L3_3 struct {
	sh3L4_4
}

type sh3L2_2 struct {
	F5 error
	sh3L3_3
}

type sh3L1_1 struct {
	sh3L2_2
	F3 float64
	F4 []byte
}

type sh3 struct {
	F1 map[string]int
	sh3L1_1
	F2 int
	F0 []byte
}

type sh4L6_6 struct {
	F7 bool
}

type sh4L5_5 struct {
	sh4L6_6
	F6 map[string]int
	F5 map[string]int
}

type sh4L4_4 struct {
	F4 uint8
	sh4L5_5
}

type sh4L3_3 struct {
	sh4L4_4
}

type sh4L2_2 struct {
	sh4L3_3
	F3 uint8
	F2 namedInt
}

type sh4L1_1 struct {
	sh4L2_2
	F0 map[string]int
	F1 [2]uint16
}

type sh4 struct {
	sh4L1_1
}

type sh5L9_9 struct {
	F9 *int
	F0 float64
}

type sh5L8_8 struct {
	sh5L9_9
	F6 map[string]int
	F7 string
	F8 uint8
}

type sh5L7_7 struct {
	sh5L8_8
	F2 bool
	F5 bool
}

type sh5L6_6 struct {
	sh5L7_7
}

type sh5L5_5 struct {
	sh5L6_6
	F0 float64
	F4 [2]uint16
}

type sh5L4_4 struct {
	sh5L5_5
	F0 interface{}
	F3 [2]uint16
}

type sh5L3_3 struct {
	sh5L4_4
	F2 interface{}
}

type sh5L2_2 struct {
	F1 float64
	F0 []byte
	sh5L3_3
}

type sh5L1_1 struct {
	F0 uint8
	sh5L2_2
}

type sh5 struct {
	sh5L1_1
}

type sh6 struct {
	F0 error
	F2 [2]uint16
	F1 []byte
}

type sh7L1_1 struct {
	F0 uint8
}

type sh7L1_2 struct {
	F1 uint8
	F2 interface{}
}

type sh7 struct {
	sh7L1_2
	sh7L1_1
}

type sh8L2_2 struct {
	F7 error
}

type sh8L2_3 struct {
	F10 [2]uint16
	F9  [2]uint16
	F11 interface{}
	F8  bool
}

type sh8L1_1 struct {
	F6 error
	sh8L2_3
	sh8L2_2
	F4 string
	F2 int
	F5 interface{}
}

type sh8 struct {
	F0 pairVal
	F1 float64
	sh8L1_1
	F2 namedInt
	F3 int
}

type sh9L4_4 struct {
	F11 uint8
	F13 *int
	F12 error
	F10 [2]uint16
}

type sh9L3_3 struct {
	F8 *int
	F9 pairVal
	sh9L4_4
	F7 *int
}

type sh9L2_2 struct {
	sh9L3_3
	F6 []byte
	F5 string
}

type sh9L1_1 struct {
	sh9L2_2
	F4 int
	F3 interface{}
	F2 uint8
}

type sh9L4_5 struct {
	F15 string
	F14 *int
}

type sh9 struct {
	F1 []byte
	sh9L4_5
	sh9L1_1
	F0 uint8
}

type sh10L6_6 struct {
	F16 map[string]int
	F15 namedInt
}

type sh10L6_7 struct {
	F19 error
	F9  map[string]int
	F17 bool
	F18 pairVal
}

type sh10L5_5 struct {
	F14 namedInt
	F13 map[string]int
	F12 error
	sh10L6_6
	sh10L6_7
}

type sh10L6_8 struct {
	F20 string
}

type sh10L4_4 struct {
	sh10L6_8
	sh10L5_5
	F10 namedInt
	F11 int
	F9  pairVal
}

type sh10L3_3 struct {
	sh10L4_4
}

type sh10L2_2 struct {
	F9 [2]uint16
	F7 map[string]int
	F8 namedInt
	sh10L3_3
}

type sh10L6_9 struct {
	F22 pairVal
	F1  bool
	F21 [2]uint16
}

type sh10L1_1 struct {
	sh10L6_9
	F3 map[string]int
	F4 bool
	F5 pairVal
	F6 error
	sh10L2_2
}

type sh10L6_10 struct {
	F26 bool
	F24 bool
	F25 uint8
	F23 string
}

type sh10 struct {
	sh10L6_10
	sh10L1_1
	F0 int
	F1 string
	F2 uint8
}

type sh11L9_9 struct {
	F13 []byte
}

type sh11L8_8 struct {
	sh11L9_9
}

type sh11L7_7 struct {
	sh11L8_8
}

type sh11L6_6 struct {
	F0 float64
	sh11L7_7
	F12 int
	F11 [2]uint16
}

type sh11L5_5 struct {
	sh11L6_6
}

type sh11L4_4 struct {
	F7  interface{}
	F10 [2]uint16
	sh11L5_5
	F8 string
	F9 int
}

type sh11L9_10 struct {
	F16 uint8
	F15 int
	F17 string
	F14 int
}

type sh11L3_3 struct {
	sh11L4_4
	F7 pairVal
	sh11L9_10
}

type sh11L9_11 struct {
	F18 map[string]int
}

type sh11L2_2 struct {
	sh11L3_3
	F5 []byte
	F6 [2]uint16
	sh11L9_11
}

type sh11L9_12 struct {
	F20 string
	F19 string
	F21 interface{}
}

type sh11L1_1 struct {
	F4 uint8
	sh11L9_12
	sh11L2_2
	F3 [2]uint16
	F2 [2]uint16
}

type sh11L9_13 struct {
	F1  pairVal
	F22 map[string]int
}

type sh11 struct {
	sh11L1_1
	sh11L9_13
	F1 namedInt
	F0 string
}

type sh12 struct {
	F3 uint8
	F2 pairVal
	F0 float64
	F1 *int
}

type sh13L1_1 struct {
	F0 float64
	F4 int
}

type sh13 struct {
	F2 uint8
	F3 float64
	sh13L1_1
	F0 error
	F1 namedInt
}

type sh14L2_2 struct {
	F7  map[string]int
	F9  int
	F6  pairVal
	F10 [2]uint16
	F8  pairVal
}

type sh14L2_3 struct {
	F11 int
	F12 float64
	F13 uint8
}

type sh14L2_4 struct {
	F15 []byte
	F16 float64
	F14 uint8
	F17 string
}

type sh14L1_1 struct {
	F2 uint8
	sh14L2_4
	F5 interface{}
	sh14L2_2
	sh14L2_3
	F3 interface{}
	F1 namedInt
	F4 string
}

type sh14L2_5 struct {
	F0  [2]uint16
	F18 interface{}
}

type sh14 struct {
	sh14L1_1
	F0 map[string]int
	sh14L2_5
	F1 [2]uint16
}

type sh15L4_4 struct {
	F16 pairVal
	F18 int
	F20 uint8
	F19 error
	F17 interface{}
}

type sh15L4_5 struct {
	F23 int
	F21 string
	F22 string
}

type sh15L4_6 struct {
	F1  interface{}
	F27 string
	F24 string
	F25 [2]uint16
	F26 float64
}

type sh15L3_3 struct {
	F4 uint8
	sh15L4_4
	sh15L4_6
	F14 []byte
	sh15L4_5
	F13 *int
	F15 string
	F12 bool
}

type sh15L4_7 struct {
	F30 pairVal
	F29 bool
	F6  interface{}
	F28 error
}

type sh15L2_2 struct {
	F3  uint8
	F10 *int
	sh15L4_7
	F11 float64
	sh15L3_3
	F8 float64
	F9 bool
}

type sh15L4_8 struct {
	F34 *int
	F35 float64
	F32 interface{}
	F31 bool
	F33 [2]uint16
}

type sh15L1_1 struct {
	F6 string
	sh15L4_8
	sh15L2_2
	F5 int
	F7 namedInt
	F4 uint8
}

type sh15L4_9 struct {
	F2  uint8
	F36 interface{}
	F37 namedInt
	F38 uint8
	F39 uint8
}

type sh15 struct {
	F1 uint8
	F4 [2]uint16
	F2 int
	sh15L1_1
	F0 interface{}
	F3 bool
	sh15L4_9
}

type sh16L6_6 struct {
	F13 *int
	F11 int
}

type sh16L5_5 struct {
	F7  error
	F11 uint8
	sh16L6_6
	F12 float64
}

type sh16L4_4 struct {
	F10 bool
	sh16L5_5
	F9 float64
}

type sh16L3_3 struct {
	sh16L4_4
	F8 *int
}

type sh16L6_7 struct {
	F5  [2]uint16
	F14 int
}

type sh16L2_2 struct {
	F7 bool
	sh16L3_3
	sh16L6_7
}

type sh16L6_8 struct {
	F16 pairVal
	F17 int
	F15 bool
}

type sh16L6_9 struct {
	F18 int
}

type sh16L1_1 struct {
	sh16L2_2
	sh16L6_8
	F6 int
	F5 int
	sh16L6_9
}

type sh16L6_10 struct {
	F19 namedInt
}

type sh16L6_11 struct {
	F3 namedInt
}

type sh16 struct {
	sh16L6_10
	F4 bool
	sh16L6_11
	F0 namedInt
	F1 map[string]int
	F3 string
	sh16L1_1
	F2 bool
}

type sh17L9_9 struct {
	F22 float64
}

type sh17L8_8 struct {
	sh17L9_9
}

type sh17L9_10 struct {
	F23 namedInt
}

type sh17L9_11 struct {
	F24 *int
}

type sh17L7_7 struct {
	F18 *int
	F17 pairVal
	F19 float64
	sh17L9_11
	F20 bool
	sh17L8_8
	sh17L9_10
	F21 [2]uint16
}

type sh17L9_12 struct {
	F25 float64
}

type sh17L6_6 struct {
	F16 pairVal
	sh17L7_7
	sh17L9_12
}

type sh17L5_5 struct {
	F12 bool
	F15 uint8
	sh17L6_6
	F14 string
	F13 uint8
	F0  int
}

type sh17L9_13 struct {
	F26 [2]uint16
	F27 interface{}
	F28 error
}

type sh17L4_4 struct {
	F11 float64
	F0  uint8
	F10 float64
	sh17L9_13
	sh17L5_5
}

type sh17L3_3 struct {
	F9 map[string]int
	sh17L4_4
}

type sh17L9_14 struct {
	F31 uint8
	F32 uint8
	F30 namedInt
	F29 []byte
	F7  namedInt
}

type sh17L2_2 struct {
	sh17L3_3
	F7 uint8
	F1 error
	F8 uint8
	sh17L9_14
}

type sh17L9_15 struct {
	F36 int
	F35 interface{}
	F34 [2]uint16
	F33 uint8
}

type sh17L1_1 struct {
	F6 string
	F1 []byte
	sh17L2_2
	sh17L9_15
	F5 interface{}
	F4 map[string]int
	F3 [2]uint16
}

type sh17L9_16 struct {
	F38 error
	F0  pairVal
	F37 *int
	F1  uint8
}

type sh17 struct {
	F0 error
	sh17L9_16
	F2 error
	F1 [2]uint16
	sh17L1_1
}

var eShapes = []*structOps{
	mkOps[sh0]("sh0"),
	mkOps[sh1]("sh1"),
	mkOps[sh2]("sh2"),
	mkOps[sh3]("sh3"),
	mkOps[sh4]("sh4"),
	mkOps[sh5]("sh5"),
	mkOps[sh6]("sh6"),
	mkOps[sh7]("sh7"),
	mkOps[sh8]("sh8"),
	mkOps[sh9]("sh9"),
	mkOps[sh10]("sh10"),
	mkOps[sh11]("sh11"),
	mkOps[sh12]("sh12"),
	mkOps[sh13]("sh13"),
	mkOps[sh14]("sh14"),
	mkOps[sh15]("sh15"),
	mkOps[sh16]("sh16"),
	mkOps[sh17]("sh17"),
}
