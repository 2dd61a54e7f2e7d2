// Code generated by tools/gensizes.py. DO NOT EDIT.

package h

type tArrU8 struct {
	A0   [0]uint8
	A1   [1]uint8
	A2   [2]uint8
	A3   [3]uint8
	A4   [4]uint8
	A5   [5]uint8
	A6   [6]uint8
	A7   [7]uint8
	A8   [8]uint8
	A9   [9]uint8
	A10  [10]uint8
	A11  [11]uint8
	A12  [12]uint8
	A13  [13]uint8
	A14  [14]uint8
	A15  [15]uint8
	A16  [16]uint8
	A17  [17]uint8
	A18  [18]uint8
	A19  [19]uint8
	A20  [20]uint8
	A21  [21]uint8
	A22  [22]uint8
	A23  [23]uint8
	A24  [24]uint8
	A25  [25]uint8
	A26  [26]uint8
	A27  [27]uint8
	A28  [28]uint8
	A29  [29]uint8
	A30  [30]uint8
	A31  [31]uint8
	A32  [32]uint8
	A33  [33]uint8
	A34  [34]uint8
	A63  [63]uint8
	A64  [64]uint8
	A65  [65]uint8
	A127 [127]uint8
	A128 [128]uint8
	A129 [129]uint8
	Z    uint8
}

func mkArrU8(b *B) (interface{}, interface{}) {
	v := &tArrU8{}
	for i := range v.A1 {
		v.A1[i] = uint8(b.el(i, 1, 1))
	}
	for i := range v.A2 {
		v.A2[i] = uint8(b.el(i, 2, 1))
	}
	for i := range v.A3 {
		v.A3[i] = uint8(b.el(i, 3, 1))
	}
	for i := range v.A4 {
		v.A4[i] = uint8(b.el(i, 4, 1))
	}
	for i := range v.A5 {
		v.A5[i] = uint8(b.el(i, 5, 1))
	}
	for i := range v.A6 {
		v.A6[i] = uint8(b.el(i, 6, 1))
	}
	for i := range v.A7 {
		v.A7[i] = uint8(b.el(i, 7, 1))
	}
	for i := range v.A8 {
		v.A8[i] = uint8(b.el(i, 8, 1))
	}
	for i := range v.A9 {
		v.A9[i] = uint8(b.el(i, 9, 1))
	}
	for i := range v.A10 {
		v.A10[i] = uint8(b.el(i, 10, 1))
	}
	for i := range v.A11 {
		v.A11[i] = uint8(b.el(i, 11, 1))
	}
	for i := range v.A12 {
		v.A12[i] = uint8(b.el(i, 12, 1))
	}
	for i := range v.A13 {
		v.A13[i] = uint8(b.el(i, 13, 1))
	}
	for i := range v.A14 {
		v.A14[i] = uint8(b.el(i, 14, 1))
	}
	for i := range v.A15 {
		v.A15[i] = uint8(b.el(i, 15, 1))
	}
	for i := range v.A16 {
		v.A16[i] = uint8(b.el(i, 16, 1))
	}
	for i := range v.A17 {
		v.A17[i] = uint8(b.el(i, 17, 1))
	}
	for i := range v.A18 {
		v.A18[i] = uint8(b.el(i, 18, 1))
	}
	for i := range v.A19 {
		v.A19[i] = uint8(b.el(i, 19, 1))
	}
	for i := range v.A20 {
		v.A20[i] = uint8(b.el(i, 20, 1))
	}
	for i := range v.A21 {
		v.A21[i] = uint8(b.el(i, 21, 1))
	}
	for i := range v.A22 {
		v.A22[i] = uint8(b.el(i, 22, 1))
	}
	for i := range v.A23 {
		v.A23[i] = uint8(b.el(i, 23, 1))
	}
	for i := range v.A24 {
		v.A24[i] = uint8(b.el(i, 24, 1))
	}
	for i := range v.A25 {
		v.A25[i] = uint8(b.el(i, 25, 1))
	}
	for i := range v.A26 {
		v.A26[i] = uint8(b.el(i, 26, 1))
	}
	for i := range v.A27 {
		v.A27[i] = uint8(b.el(i, 27, 1))
	}
	for i := range v.A28 {
		v.A28[i] = uint8(b.el(i, 28, 1))
	}
	for i := range v.A29 {
		v.A29[i] = uint8(b.el(i, 29, 1))
	}
	for i := range v.A30 {
		v.A30[i] = uint8(b.el(i, 30, 1))
	}
	for i := range v.A31 {
		v.A31[i] = uint8(b.el(i, 31, 1))
	}
	for i := range v.A32 {
		v.A32[i] = uint8(b.el(i, 32, 1))
	}
	for i := range v.A33 {
		v.A33[i] = uint8(b.el(i, 33, 1))
	}
	for i := range v.A34 {
		v.A34[i] = uint8(b.el(i, 34, 1))
	}
	for i := range v.A63 {
		v.A63[i] = uint8(b.el(i, 63, 1))
	}
	for i := range v.A64 {
		v.A64[i] = uint8(b.el(i, 64, 1))
	}
	for i := range v.A65 {
		v.A65[i] = uint8(b.el(i, 65, 1))
	}
	for i := range v.A127 {
		v.A127[i] = uint8(b.el(i, 127, 1))
	}
	for i := range v.A128 {
		v.A128[i] = uint8(b.el(i, 128, 1))
	}
	for i := range v.A129 {
		v.A129[i] = uint8(b.el(i, 129, 1))
	}
	v.Z = b.u8()
	return v, &tArrU8{}
}

type tArrU16 struct {
	A0   [0]uint16
	A1   [1]uint16
	A2   [2]uint16
	A3   [3]uint16
	A4   [4]uint16
	A5   [5]uint16
	A6   [6]uint16
	A7   [7]uint16
	A8   [8]uint16
	A9   [9]uint16
	A10  [10]uint16
	A11  [11]uint16
	A12  [12]uint16
	A13  [13]uint16
	A14  [14]uint16
	A15  [15]uint16
	A16  [16]uint16
	A17  [17]uint16
	A18  [18]uint16
	A19  [19]uint16
	A20  [20]uint16
	A21  [21]uint16
	A22  [22]uint16
	A23  [23]uint16
	A24  [24]uint16
	A25  [25]uint16
	A26  [26]uint16
	A27  [27]uint16
	A28  [28]uint16
	A29  [29]uint16
	A30  [30]uint16
	A31  [31]uint16
	A32  [32]uint16
	A33  [33]uint16
	A34  [34]uint16
	A63  [63]uint16
	A64  [64]uint16
	A65  [65]uint16
	A127 [127]uint16
	A128 [128]uint16
	A129 [129]uint16
	Z    uint8
}

func mkArrU16(b *B) (interface{}, interface{}) {
	v := &tArrU16{}
	for i := range v.A1 {
		v.A1[i] = uint16(b.el(i, 1, 2))
	}
	for i := range v.A2 {
		v.A2[i] = uint16(b.el(i, 2, 2))
	}
	for i := range v.A3 {
		v.A3[i] = uint16(b.el(i, 3, 2))
	}
	for i := range v.A4 {
		v.A4[i] = uint16(b.el(i, 4, 2))
	}
	for i := range v.A5 {
		v.A5[i] = uint16(b.el(i, 5, 2))
	}
	for i := range v.A6 {
		v.A6[i] = uint16(b.el(i, 6, 2))
	}
	for i := range v.A7 {
		v.A7[i] = uint16(b.el(i, 7, 2))
	}
	for i := range v.A8 {
		v.A8[i] = uint16(b.el(i, 8, 2))
	}
	for i := range v.A9 {
		v.A9[i] = uint16(b.el(i, 9, 2))
	}
	for i := range v.A10 {
		v.A10[i] = uint16(b.el(i, 10, 2))
	}
	for i := range v.A11 {
		v.A11[i] = uint16(b.el(i, 11, 2))
	}
	for i := range v.A12 {
		v.A12[i] = uint16(b.el(i, 12, 2))
	}
	for i := range v.A13 {
		v.A13[i] = uint16(b.el(i, 13, 2))
	}
	for i := range v.A14 {
		v.A14[i] = uint16(b.el(i, 14, 2))
	}
	for i := range v.A15 {
		v.A15[i] = uint16(b.el(i, 15, 2))
	}
	for i := range v.A16 {
		v.A16[i] = uint16(b.el(i, 16, 2))
	}
	for i := range v.A17 {
		v.A17[i] = uint16(b.el(i, 17, 2))
	}
	for i := range v.A18 {
		v.A18[i] = uint16(b.el(i, 18, 2))
	}
	for i := range v.A19 {
		v.A19[i] = uint16(b.el(i, 19, 2))
	}
	for i := range v.A20 {
		v.A20[i] = uint16(b.el(i, 20, 2))
	}
	for i := range v.A21 {
		v.A21[i] = uint16(b.el(i, 21, 2))
	}
	for i := range v.A22 {
		v.A22[i] = uint16(b.el(i, 22, 2))
	}
	for i := range v.A23 {
		v.A23[i] = uint16(b.el(i, 23, 2))
	}
	for i := range v.A24 {
		v.A24[i] = uint16(b.el(i, 24, 2))
	}
	for i := range v.A25 {
		v.A25[i] = uint16(b.el(i, 25, 2))
	}
	for i := range v.A26 {
		v.A26[i] = uint16(b.el(i, 26, 2))
	}
	for i := range v.A27 {
		v.A27[i] = uint16(b.el(i, 27, 2))
	}
	for i := range v.A28 {
		v.A28[i] = uint16(b.el(i, 28, 2))
	}
	for i := range v.A29 {
		v.A29[i] = uint16(b.el(i, 29, 2))
	}
	for i := range v.A30 {
		v.A30[i] = uint16(b.el(i, 30, 2))
	}
	for i := range v.A31 {
		v.A31[i] = uint16(b.el(i, 31, 2))
	}
	for i := range v.A32 {
		v.A32[i] = uint16(b.el(i, 32, 2))
	}
	for i := range v.A33 {
		v.A33[i] = uint16(b.el(i, 33, 2))
	}
	for i := range v.A34 {
		v.A34[i] = uint16(b.el(i, 34, 2))
	}
	for i := range v.A63 {
		v.A63[i] = uint16(b.el(i, 63, 2))
	}
	for i := range v.A64 {
		v.A64[i] = uint16(b.el(i, 64, 2))
	}
	for i := range v.A65 {
		v.A65[i] = uint16(b.el(i, 65, 2))
	}
	for i := range v.A127 {
		v.A127[i] = uint16(b.el(i, 127, 2))
	}
	for i := range v.A128 {
		v.A128[i] = uint16(b.el(i, 128, 2))
	}
	for i := range v.A129 {
		v.A129[i] = uint16(b.el(i, 129, 2))
	}
	v.Z = b.u8()
	return v, &tArrU16{}
}

type tArrU32 struct {
	A0   [0]uint32
	A1   [1]uint32
	A2   [2]uint32
	A3   [3]uint32
	A4   [4]uint32
	A5   [5]uint32
	A6   [6]uint32
	A7   [7]uint32
	A8   [8]uint32
	A9   [9]uint32
	A10  [10]uint32
	A11  [11]uint32
	A12  [12]uint32
	A13  [13]uint32
	A14  [14]uint32
	A15  [15]uint32
	A16  [16]uint32
	A17  [17]uint32
	A18  [18]uint32
	A19  [19]uint32
	A20  [20]uint32
	A21  [21]uint32
	A22  [22]uint32
	A23  [23]uint32
	A24  [24]uint32
	A25  [25]uint32
	A26  [26]uint32
	A27  [27]uint32
	A28  [28]uint32
	A29  [29]uint32
	A30  [30]uint32
	A31  [31]uint32
	A32  [32]uint32
	A33  [33]uint32
	A34  [34]uint32
	A63  [63]uint32
	A64  [64]uint32
	A65  [65]uint32
	A127 [127]uint32
	A128 [128]uint32
	A129 [129]uint32
	Z    uint8
}

func mkArrU32(b *B) (interface{}, interface{}) {
	v := &tArrU32{}
	for i := range v.A1 {
		v.A1[i] = uint32(b.el(i, 1, 4))
	}
	for i := range v.A2 {
		v.A2[i] = uint32(b.el(i, 2, 4))
	}
	for i := range v.A3 {
		v.A3[i] = uint32(b.el(i, 3, 4))
	}
	for i := range v.A4 {
		v.A4[i] = uint32(b.el(i, 4, 4))
	}
	for i := range v.A5 {
		v.A5[i] = uint32(b.el(i, 5, 4))
	}
	for i := range v.A6 {
		v.A6[i] = uint32(b.el(i, 6, 4))
	}
	for i := range v.A7 {
		v.A7[i] = uint32(b.el(i, 7, 4))
	}
	for i := range v.A8 {
		v.A8[i] = uint32(b.el(i, 8, 4))
	}
	for i := range v.A9 {
		v.A9[i] = uint32(b.el(i, 9, 4))
	}
	for i := range v.A10 {
		v.A10[i] = uint32(b.el(i, 10, 4))
	}
	for i := range v.A11 {
		v.A11[i] = uint32(b.el(i, 11, 4))
	}
	for i := range v.A12 {
		v.A12[i] = uint32(b.el(i, 12, 4))
	}
	for i := range v.A13 {
		v.A13[i] = uint32(b.el(i, 13, 4))
	}
	for i := range v.A14 {
		v.A14[i] = uint32(b.el(i, 14, 4))
	}
	for i := range v.A15 {
		v.A15[i] = uint32(b.el(i, 15, 4))
	}
	for i := range v.A16 {
		v.A16[i] = uint32(b.el(i, 16, 4))
	}
	for i := range v.A17 {
		v.A17[i] = uint32(b.el(i, 17, 4))
	}
	for i := range v.A18 {
		v.A18[i] = uint32(b.el(i, 18, 4))
	}
	for i := range v.A19 {
		v.A19[i] = uint32(b.el(i, 19, 4))
	}
	for i := range v.A20 {
		v.A20[i] = uint32(b.el(i, 20, 4))
	}
	for i := range v.A21 {
		v.A21[i] = uint32(b.el(i, 21, 4))
	}
	for i := range v.A22 {
		v.A22[i] = uint32(b.el(i, 22, 4))
	}
	for i := range v.A23 {
		v.A23[i] = uint32(b.el(i, 23, 4))
	}
	for i := range v.A24 {
		v.A24[i] = uint32(b.el(i, 24, 4))
	}
	for i := range v.A25 {
		v.A25[i] = uint32(b.el(i, 25, 4))
	}
	for i := range v.A26 {
		v.A26[i] = uint32(b.el(i, 26, 4))
	}
	for i := range v.A27 {
		v.A27[i] = uint32(b.el(i, 27, 4))
	}
	for i := range v.A28 {
		v.A28[i] = uint32(b.el(i, 28, 4))
	}
	for i := range v.A29 {
		v.A29[i] = uint32(b.el(i, 29, 4))
	}
	for i := range v.A30 {
		v.A30[i] = uint32(b.el(i, 30, 4))
	}
	for i := range v.A31 {
		v.A31[i] = uint32(b.el(i, 31, 4))
	}
	for i := range v.A32 {
		v.A32[i] = uint32(b.el(i, 32, 4))
	}
	for i := range v.A33 {
		v.A33[i] = uint32(b.el(i, 33, 4))
	}
	for i := range v.A34 {
		v.A34[i] = uint32(b.el(i, 34, 4))
	}
	for i := range v.A63 {
		v.A63[i] = uint32(b.el(i, 63, 4))
	}
	for i := range v.A64 {
		v.A64[i] = uint32(b.el(i, 64, 4))
	}
	for i := range v.A65 {
		v.A65[i] = uint32(b.el(i, 65, 4))
	}
	for i := range v.A127 {
		v.A127[i] = uint32(b.el(i, 127, 4))
	}
	for i := range v.A128 {
		v.A128[i] = uint32(b.el(i, 128, 4))
	}
	for i := range v.A129 {
		v.A129[i] = uint32(b.el(i, 129, 4))
	}
	v.Z = b.u8()
	return v, &tArrU32{}
}

type tArrU64 struct {
	A0   [0]uint64
	A1   [1]uint64
	A2   [2]uint64
	A3   [3]uint64
	A4   [4]uint64
	A5   [5]uint64
	A6   [6]uint64
	A7   [7]uint64
	A8   [8]uint64
	A9   [9]uint64
	A10  [10]uint64
	A11  [11]uint64
	A12  [12]uint64
	A13  [13]uint64
	A14  [14]uint64
	A15  [15]uint64
	A16  [16]uint64
	A17  [17]uint64
	A18  [18]uint64
	A19  [19]uint64
	A20  [20]uint64
	A21  [21]uint64
	A22  [22]uint64
	A23  [23]uint64
	A24  [24]uint64
	A25  [25]uint64
	A26  [26]uint64
	A27  [27]uint64
	A28  [28]uint64
	A29  [29]uint64
	A30  [30]uint64
	A31  [31]uint64
	A32  [32]uint64
	A33  [33]uint64
	A34  [34]uint64
	A63  [63]uint64
	A64  [64]uint64
	A65  [65]uint64
	A127 [127]uint64
	A128 [128]uint64
	A129 [129]uint64
	Z    uint8
}

func mkArrU64(b *B) (interface{}, interface{}) {
	v := &tArrU64{}
	for i := range v.A1 {
		v.A1[i] = uint64(b.el(i, 1, 8))
	}
	for i := range v.A2 {
		v.A2[i] = uint64(b.el(i, 2, 8))
	}
	for i := range v.A3 {
		v.A3[i] = uint64(b.el(i, 3, 8))
	}
	for i := range v.A4 {
		v.A4[i] = uint64(b.el(i, 4, 8))
	}
	for i := range v.A5 {
		v.A5[i] = uint64(b.el(i, 5, 8))
	}
	for i := range v.A6 {
		v.A6[i] = uint64(b.el(i, 6, 8))
	}
	for i := range v.A7 {
		v.A7[i] = uint64(b.el(i, 7, 8))
	}
	for i := range v.A8 {
		v.A8[i] = uint64(b.el(i, 8, 8))
	}
	for i := range v.A9 {
		v.A9[i] = uint64(b.el(i, 9, 8))
	}
	for i := range v.A10 {
		v.A10[i] = uint64(b.el(i, 10, 8))
	}
	for i := range v.A11 {
		v.A11[i] = uint64(b.el(i, 11, 8))
	}
	for i := range v.A12 {
		v.A12[i] = uint64(b.el(i, 12, 8))
	}
	for i := range v.A13 {
		v.A13[i] = uint64(b.el(i, 13, 8))
	}
	for i := range v.A14 {
		v.A14[i] = uint64(b.el(i, 14, 8))
	}
	for i := range v.A15 {
		v.A15[i] = uint64(b.el(i, 15, 8))
	}
	for i := range v.A16 {
		v.A16[i] = uint64(b.el(i, 16, 8))
	}
	for i := range v.A17 {
		v.A17[i] = uint64(b.el(i, 17, 8))
	}
	for i := range v.A18 {
		v.A18[i] = uint64(b.el(i, 18, 8))
	}
	for i := range v.A19 {
		v.A19[i] = uint64(b.el(i, 19, 8))
	}
	for i := range v.A20 {
		v.A20[i] = uint64(b.el(i, 20, 8))
	}
	for i := range v.A21 {
		v.A21[i] = uint64(b.el(i, 21, 8))
	}
	for i := range v.A22 {
		v.A22[i] = uint64(b.el(i, 22, 8))
	}
	for i := range v.A23 {
		v.A23[i] = uint64(b.el(i, 23, 8))
	}
	for i := range v.A24 {
		v.A24[i] = uint64(b.el(i, 24, 8))
	}
	for i := range v.A25 {
		v.A25[i] = uint64(b.el(i, 25, 8))
	}
	for i := range v.A26 {
		v.A26[i] = uint64(b.el(i, 26, 8))
	}
	for i := range v.A27 {
		v.A27[i] = uint64(b.el(i, 27, 8))
	}
	for i := range v.A28 {
		v.A28[i] = uint64(b.el(i, 28, 8))
	}
	for i := range v.A29 {
		v.A29[i] = uint64(b.el(i, 29, 8))
	}
	for i := range v.A30 {
		v.A30[i] = uint64(b.el(i, 30, 8))
	}
	for i := range v.A31 {
		v.A31[i] = uint64(b.el(i, 31, 8))
	}
	for i := range v.A32 {
		v.A32[i] = uint64(b.el(i, 32, 8))
	}
	for i := range v.A33 {
		v.A33[i] = uint64(b.el(i, 33, 8))
	}
	for i := range v.A34 {
		v.A34[i] = uint64(b.el(i, 34, 8))
	}
	for i := range v.A63 {
		v.A63[i] = uint64(b.el(i, 63, 8))
	}
	for i := range v.A64 {
		v.A64[i] = uint64(b.el(i, 64, 8))
	}
	for i := range v.A65 {
		v.A65[i] = uint64(b.el(i, 65, 8))
	}
	for i := range v.A127 {
		v.A127[i] = uint64(b.el(i, 127, 8))
	}
	for i := range v.A128 {
		v.A128[i] = uint64(b.el(i, 128, 8))
	}
	for i := range v.A129 {
		v.A129[i] = uint64(b.el(i, 129, 8))
	}
	v.Z = b.u8()
	return v, &tArrU64{}
}

type tArrI8 struct {
	A0   [0]int8
	A1   [1]int8
	A2   [2]int8
	A3   [3]int8
	A4   [4]int8
	A5   [5]int8
	A6   [6]int8
	A7   [7]int8
	A8   [8]int8
	A9   [9]int8
	A10  [10]int8
	A11  [11]int8
	A12  [12]int8
	A13  [13]int8
	A14  [14]int8
	A15  [15]int8
	A16  [16]int8
	A17  [17]int8
	A18  [18]int8
	A19  [19]int8
	A20  [20]int8
	A21  [21]int8
	A22  [22]int8
	A23  [23]int8
	A24  [24]int8
	A25  [25]int8
	A26  [26]int8
	A27  [27]int8
	A28  [28]int8
	A29  [29]int8
	A30  [30]int8
	A31  [31]int8
	A32  [32]int8
	A33  [33]int8
	A34  [34]int8
	A63  [63]int8
	A64  [64]int8
	A65  [65]int8
	A127 [127]int8
	A128 [128]int8
	A129 [129]int8
	Z    uint8
}

func mkArrI8(b *B) (interface{}, interface{}) {
	v := &tArrI8{}
	for i := range v.A1 {
		v.A1[i] = int8(b.el(i, 1, 1))
	}
	for i := range v.A2 {
		v.A2[i] = int8(b.el(i, 2, 1))
	}
	for i := range v.A3 {
		v.A3[i] = int8(b.el(i, 3, 1))
	}
	for i := range v.A4 {
		v.A4[i] = int8(b.el(i, 4, 1))
	}
	for i := range v.A5 {
		v.A5[i] = int8(b.el(i, 5, 1))
	}
	for i := range v.A6 {
		v.A6[i] = int8(b.el(i, 6, 1))
	}
	for i := range v.A7 {
		v.A7[i] = int8(b.el(i, 7, 1))
	}
	for i := range v.A8 {
		v.A8[i] = int8(b.el(i, 8, 1))
	}
	for i := range v.A9 {
		v.A9[i] = int8(b.el(i, 9, 1))
	}
	for i := range v.A10 {
		v.A10[i] = int8(b.el(i, 10, 1))
	}
	for i := range v.A11 {
		v.A11[i] = int8(b.el(i, 11, 1))
	}
	for i := range v.A12 {
		v.A12[i] = int8(b.el(i, 12, 1))
	}
	for i := range v.A13 {
		v.A13[i] = int8(b.el(i, 13, 1))
	}
	for i := range v.A14 {
		v.A14[i] = int8(b.el(i, 14, 1))
	}
	for i := range v.A15 {
		v.A15[i] = int8(b.el(i, 15, 1))
	}
	for i := range v.A16 {
		v.A16[i] = int8(b.el(i, 16, 1))
	}
	for i := range v.A17 {
		v.A17[i] = int8(b.el(i, 17, 1))
	}
	for i := range v.A18 {
		v.A18[i] = int8(b.el(i, 18, 1))
	}
	for i := range v.A19 {
		v.A19[i] = int8(b.el(i, 19, 1))
	}
	for i := range v.A20 {
		v.A20[i] = int8(b.el(i, 20, 1))
	}
	for i := range v.A21 {
		v.A21[i] = int8(b.el(i, 21, 1))
	}
	for i := range v.A22 {
		v.A22[i] = int8(b.el(i, 22, 1))
	}
	for i := range v.A23 {
		v.A23[i] = int8(b.el(i, 23, 1))
	}
	for i := range v.A24 {
		v.A24[i] = int8(b.el(i, 24, 1))
	}
	for i := range v.A25 {
		v.A25[i] = int8(b.el(i, 25, 1))
	}
	for i := range v.A26 {
		v.A26[i] = int8(b.el(i, 26, 1))
	}
	for i := range v.A27 {
		v.A27[i] = int8(b.el(i, 27, 1))
	}
	for i := range v.A28 {
		v.A28[i] = int8(b.el(i, 28, 1))
	}
	for i := range v.A29 {
		v.A29[i] = int8(b.el(i, 29, 1))
	}
	for i := range v.A30 {
		v.A30[i] = int8(b.el(i, 30, 1))
	}
	for i := range v.A31 {
		v.A31[i] = int8(b.el(i, 31, 1))
	}
	for i := range v.A32 {
		v.A32[i] = int8(b.el(i, 32, 1))
	}
	for i := range v.A33 {
		v.A33[i] = int8(b.el(i, 33, 1))
	}
	for i := range v.A34 {
		v.A34[i] = int8(b.el(i, 34, 1))
	}
	for i := range v.A63 {
		v.A63[i] = int8(b.el(i, 63, 1))
	}
	for i := range v.A64 {
		v.A64[i] = int8(b.el(i, 64, 1))
	}
	for i := range v.A65 {
		v.A65[i] = int8(b.el(i, 65, 1))
	}
	for i := range v.A127 {
		v.A127[i] = int8(b.el(i, 127, 1))
	}
	for i := range v.A128 {
		v.A128[i] = int8(b.el(i, 128, 1))
	}
	for i := range v.A129 {
		v.A129[i] = int8(b.el(i, 129, 1))
	}
	v.Z = b.u8()
	return v, &tArrI8{}
}

type tArrI16 struct {
	A0   [0]int16
	A1   [1]int16
	A2   [2]int16
	A3   [3]int16
	A4   [4]int16
	A5   [5]int16
	A6   [6]int16
	A7   [7]int16
	A8   [8]int16
	A9   [9]int16
	A10  [10]int16
	A11  [11]int16
	A12  [12]int16
	A13  [13]int16
	A14  [14]int16
	A15  [15]int16
	A16  [16]int16
	A17  [17]int16
	A18  [18]int16
	A19  [19]int16
	A20  [20]int16
	A21  [21]int16
	A22  [22]int16
	A23  [23]int16
	A24  [24]int16
	A25  [25]int16
	A26  [26]int16
	A27  [27]int16
	A28  [28]int16
	A29  [29]int16
	A30  [30]int16
	A31  [31]int16
	A32  [32]int16
	A33  [33]int16
	A34  [34]int16
	A63  [63]int16
	A64  [64]int16
	A65  [65]int16
	A127 [127]int16
	A128 [128]int16
	A129 [129]int16
	Z    uint8
}

func mkArrI16(b *B) (interface{}, interface{}) {
	v := &tArrI16{}
	for i := range v.A1 {
		v.A1[i] = int16(b.el(i, 1, 2))
	}
	for i := range v.A2 {
		v.A2[i] = int16(b.el(i, 2, 2))
	}
	for i := range v.A3 {
		v.A3[i] = int16(b.el(i, 3, 2))
	}
	for i := range v.A4 {
		v.A4[i] = int16(b.el(i, 4, 2))
	}
	for i := range v.A5 {
		v.A5[i] = int16(b.el(i, 5, 2))
	}
	for i := range v.A6 {
		v.A6[i] = int16(b.el(i, 6, 2))
	}
	for i := range v.A7 {
		v.A7[i] = int16(b.el(i, 7, 2))
	}
	for i := range v.A8 {
		v.A8[i] = int16(b.el(i, 8, 2))
	}
	for i := range v.A9 {
		v.A9[i] = int16(b.el(i, 9, 2))
	}
	for i := range v.A10 {
		v.A10[i] = int16(b.el(i, 10, 2))
	}
	for i := range v.A11 {
		v.A11[i] = int16(b.el(i, 11, 2))
	}
	for i := range v.A12 {
		v.A12[i] = int16(b.el(i, 12, 2))
	}
	for i := range v.A13 {
		v.A13[i] = int16(b.el(i, 13, 2))
	}
	for i := range v.A14 {
		v.A14[i] = int16(b.el(i, 14, 2))
	}
	for i := range v.A15 {
		v.A15[i] = int16(b.el(i, 15, 2))
	}
	for i := range v.A16 {
		v.A16[i] = int16(b.el(i, 16, 2))
	}
	for i := range v.A17 {
		v.A17[i] = int16(b.el(i, 17, 2))
	}
	for i := range v.A18 {
		v.A18[i] = int16(b.el(i, 18, 2))
	}
	for i := range v.A19 {
		v.A19[i] = int16(b.el(i, 19, 2))
	}
	for i := range v.A20 {
		v.A20[i] = int16(b.el(i, 20, 2))
	}
	for i := range v.A21 {
		v.A21[i] = int16(b.el(i, 21, 2))
	}
	for i := range v.A22 {
		v.A22[i] = int16(b.el(i, 22, 2))
	}
	for i := range v.A23 {
		v.A23[i] = int16(b.el(i, 23, 2))
	}
	for i := range v.A24 {
		v.A24[i] = int16(b.el(i, 24, 2))
	}
	for i := range v.A25 {
		v.A25[i] = int16(b.el(i, 25, 2))
	}
	for i := range v.A26 {
		v.A26[i] = int16(b.el(i, 26, 2))
	}
	for i := range v.A27 {
		v.A27[i] = int16(b.el(i, 27, 2))
	}
	for i := range v.A28 {
		v.A28[i] = int16(b.el(i, 28, 2))
	}
	for i := range v.A29 {
		v.A29[i] = int16(b.el(i, 29, 2))
	}
	for i := range v.A30 {
		v.A30[i] = int16(b.el(i, 30, 2))
	}
	for i := range v.A31 {
		v.A31[i] = int16(b.el(i, 31, 2))
	}
	for i := range v.A32 {
		v.A32[i] = int16(b.el(i, 32, 2))
	}
	for i := range v.A33 {
		v.A33[i] = int16(b.el(i, 33, 2))
	}
	for i := range v.A34 {
		v.A34[i] = int16(b.el(i, 34, 2))
	}
	for i := range v.A63 {
		v.A63[i] = int16(b.el(i, 63, 2))
	}
	for i := range v.A64 {
		v.A64[i] = int16(b.el(i, 64, 2))
	}
	for i := range v.A65 {
		v.A65[i] = int16(b.el(i, 65, 2))
	}
	for i := range v.A127 {
		v.A127[i] = int16(b.el(i, 127, 2))
	}
	for i := range v.A128 {
		v.A128[i] = int16(b.el(i, 128, 2))
	}
	for i := range v.A129 {
		v.A129[i] = int16(b.el(i, 129, 2))
	}
	v.Z = b.u8()
	return v, &tArrI16{}
}

type tArrI32 struct {
	A0   [0]int32
	A1   [1]int32
	A2   [2]int32
	A3   [3]int32
	A4   [4]int32
	A5   [5]int32
	A6   [6]int32
	A7   [7]int32
	A8   [8]int32
	A9   [9]int32
	A10  [10]int32
	A11  [11]int32
	A12  [12]int32
	A13  [13]int32
	A14  [14]int32
	A15  [15]int32
	A16  [16]int32
	A17  [17]int32
	A18  [18]int32
	A19  [19]int32
	A20  [20]int32
	A21  [21]int32
	A22  [22]int32
	A23  [23]int32
	A24  [24]int32
	A25  [25]int32
	A26  [26]int32
	A27  [27]int32
	A28  [28]int32
	A29  [29]int32
	A30  [30]int32
	A31  [31]int32
	A32  [32]int32
	A33  [33]int32
	A34  [34]int32
	A63  [63]int32
	A64  [64]int32
	A65  [65]int32
	A127 [127]int32
	A128 [128]int32
	A129 [129]int32
	Z    uint8
}

func mkArrI32(b *B) (interface{}, interface{}) {
	v := &tArrI32{}
	for i := range v.A1 {
		v.A1[i] = int32(b.el(i, 1, 4))
	}
	for i := range v.A2 {
		v.A2[i] = int32(b.el(i, 2, 4))
	}
	for i := range v.A3 {
		v.A3[i] = int32(b.el(i, 3, 4))
	}
	for i := range v.A4 {
		v.A4[i] = int32(b.el(i, 4, 4))
	}
	for i := range v.A5 {
		v.A5[i] = int32(b.el(i, 5, 4))
	}
	for i := range v.A6 {
		v.A6[i] = int32(b.el(i, 6, 4))
	}
	for i := range v.A7 {
		v.A7[i] = int32(b.el(i, 7, 4))
	}
	for i := range v.A8 {
		v.A8[i] = int32(b.el(i, 8, 4))
	}
	for i := range v.A9 {
		v.A9[i] = int32(b.el(i, 9, 4))
	}
	for i := range v.A10 {
		v.A10[i] = int32(b.el(i, 10, 4))
	}
	for i := range v.A11 {
		v.A11[i] = int32(b.el(i, 11, 4))
	}
	for i := range v.A12 {
		v.A12[i] = int32(b.el(i, 12, 4))
	}
	for i := range v.A13 {
		v.A13[i] = int32(b.el(i, 13, 4))
	}
	for i := range v.A14 {
		v.A14[i] = int32(b.el(i, 14, 4))
	}
	for i := range v.A15 {
		v.A15[i] = int32(b.el(i, 15, 4))
	}
	for i := range v.A16 {
		v.A16[i] = int32(b.el(i, 16, 4))
	}
	for i := range v.A17 {
		v.A17[i] = int32(b.el(i, 17, 4))
	}
	for i := range v.A18 {
		v.A18[i] = int32(b.el(i, 18, 4))
	}
	for i := range v.A19 {
		v.A19[i] = int32(b.el(i, 19, 4))
	}
	for i := range v.A20 {
		v.A20[i] = int32(b.el(i, 20, 4))
	}
	for i := range v.A21 {
		v.A21[i] = int32(b.el(i, 21, 4))
	}
	for i := range v.A22 {
		v.A22[i] = int32(b.el(i, 22, 4))
	}
	for i := range v.A23 {
		v.A23[i] = int32(b.el(i, 23, 4))
	}
	for i := range v.A24 {
		v.A24[i] = int32(b.el(i, 24, 4))
	}
	for i := range v.A25 {
		v.A25[i] = int32(b.el(i, 25, 4))
	}
	for i := range v.A26 {
		v.A26[i] = int32(b.el(i, 26, 4))
	}
	for i := range v.A27 {
		v.A27[i] = int32(b.el(i, 27, 4))
	}
	for i := range v.A28 {
		v.A28[i] = int32(b.el(i, 28, 4))
	}
	for i := range v.A29 {
		v.A29[i] = int32(b.el(i, 29, 4))
	}
	for i := range v.A30 {
		v.A30[i] = int32(b.el(i, 30, 4))
	}
	for i := range v.A31 {
		v.A31[i] = int32(b.el(i, 31, 4))
	}
	for i := range v.A32 {
		v.A32[i] = int32(b.el(i, 32, 4))
	}
	for i := range v.A33 {
		v.A33[i] = int32(b.el(i, 33, 4))
	}
	for i := range v.A34 {
		v.A34[i] = int32(b.el(i, 34, 4))
	}
	for i := range v.A63 {
		v.A63[i] = int32(b.el(i, 63, 4))
	}
	for i := range v.A64 {
		v.A64[i] = int32(b.el(i, 64, 4))
	}
	for i := range v.A65 {
		v.A65[i] = int32(b.el(i, 65, 4))
	}
	for i := range v.A127 {
		v.A127[i] = int32(b.el(i, 127, 4))
	}
	for i := range v.A128 {
		v.A128[i] = int32(b.el(i, 128, 4))
	}
	for i := range v.A129 {
		v.A129[i] = int32(b.el(i, 129, 4))
	}
	v.Z = b.u8()
	return v, &tArrI32{}
}

type tArrI64 struct {
	A0   [0]int64
	A1   [1]int64
	A2   [2]int64
	A3   [3]int64
	A4   [4]int64
	A5   [5]int64
	A6   [6]int64
	A7   [7]int64
	A8   [8]int64
	A9   [9]int64
	A10  [10]int64
	A11  [11]int64
	A12  [12]int64
	A13  [13]int64
	A14  [14]int64
	A15  [15]int64
	A16  [16]int64
	A17  [17]int64
	A18  [18]int64
	A19  [19]int64
	A20  [20]int64
	A21  [21]int64
	A22  [22]int64
	A23  [23]int64
	A24  [24]int64
	A25  [25]int64
	A26  [26]int64
	A27  [27]int64
	A28  [28]int64
	A29  [29]int64
	A30  [30]int64
	A31  [31]int64
	A32  [32]int64
	A33  [33]int64
	A34  [34]int64
	A63  [63]int64
	A64  [64]int64
	A65  [65]int64
	A127 [127]int64
	A128 [128]int64
	A129 [129]int64
	Z    uint8
}

func mkArrI64(b *B) (interface{}, interface{}) {
	v := &tArrI64{}
	for i := range v.A1 {
		v.A1[i] = int64(b.el(i, 1, 8))
	}
	for i := range v.A2 {
		v.A2[i] = int64(b.el(i, 2, 8))
	}
	for i := range v.A3 {
		v.A3[i] = int64(b.el(i, 3, 8))
	}
	for i := range v.A4 {
		v.A4[i] = int64(b.el(i, 4, 8))
	}
	for i := range v.A5 {
		v.A5[i] = int64(b.el(i, 5, 8))
	}
	for i := range v.A6 {
		v.A6[i] = int64(b.el(i, 6, 8))
	}
	for i := range v.A7 {
		v.A7[i] = int64(b.el(i, 7, 8))
	}
	for i := range v.A8 {
		v.A8[i] = int64(b.el(i, 8, 8))
	}
	for i := range v.A9 {
		v.A9[i] = int64(b.el(i, 9, 8))
	}
	for i := range v.A10 {
		v.A10[i] = int64(b.el(i, 10, 8))
	}
	for i := range v.A11 {
		v.A11[i] = int64(b.el(i, 11, 8))
	}
	for i := range v.A12 {
		v.A12[i] = int64(b.el(i, 12, 8))
	}
	for i := range v.A13 {
		v.A13[i] = int64(b.el(i, 13, 8))
	}
	for i := range v.A14 {
		v.A14[i] = int64(b.el(i, 14, 8))
	}
	for i := range v.A15 {
		v.A15[i] = int64(b.el(i, 15, 8))
	}
	for i := range v.A16 {
		v.A16[i] = int64(b.el(i, 16, 8))
	}
	for i := range v.A17 {
		v.A17[i] = int64(b.el(i, 17, 8))
	}
	for i := range v.A18 {
		v.A18[i] = int64(b.el(i, 18, 8))
	}
	for i := range v.A19 {
		v.A19[i] = int64(b.el(i, 19, 8))
	}
	for i := range v.A20 {
		v.A20[i] = int64(b.el(i, 20, 8))
	}
	for i := range v.A21 {
		v.A21[i] = int64(b.el(i, 21, 8))
	}
	for i := range v.A22 {
		v.A22[i] = int64(b.el(i, 22, 8))
	}
	for i := range v.A23 {
		v.A23[i] = int64(b.el(i, 23, 8))
	}
	for i := range v.A24 {
		v.A24[i] = int64(b.el(i, 24, 8))
	}
	for i := range v.A25 {
		v.A25[i] = int64(b.el(i, 25, 8))
	}
	for i := range v.A26 {
		v.A26[i] = int64(b.el(i, 26, 8))
	}
	for i := range v.A27 {
		v.A27[i] = int64(b.el(i, 27, 8))
	}
	for i := range v.A28 {
		v.A28[i] = int64(b.el(i, 28, 8))
	}
	for i := range v.A29 {
		v.A29[i] = int64(b.el(i, 29, 8))
	}
	for i := range v.A30 {
		v.A30[i] = int64(b.el(i, 30, 8))
	}
	for i := range v.A31 {
		v.A31[i] = int64(b.el(i, 31, 8))
	}
	for i := range v.A32 {
		v.A32[i] = int64(b.el(i, 32, 8))
	}
	for i := range v.A33 {
		v.A33[i] = int64(b.el(i, 33, 8))
	}
	for i := range v.A34 {
		v.A34[i] = int64(b.el(i, 34, 8))
	}
	for i := range v.A63 {
		v.A63[i] = int64(b.el(i, 63, 8))
	}
	for i := range v.A64 {
		v.A64[i] = int64(b.el(i, 64, 8))
	}
	for i := range v.A65 {
		v.A65[i] = int64(b.el(i, 65, 8))
	}
	for i := range v.A127 {
		v.A127[i] = int64(b.el(i, 127, 8))
	}
	for i := range v.A128 {
		v.A128[i] = int64(b.el(i, 128, 8))
	}
	for i := range v.A129 {
		v.A129[i] = int64(b.el(i, 129, 8))
	}
	v.Z = b.u8()
	return v, &tArrI64{}
}

type tArrSt struct {
	A0   [0]inner2
	B0   [0]bool
	A1   [1]inner2
	B1   [1]bool
	A2   [2]inner2
	B2   [2]bool
	A3   [3]inner2
	B3   [3]bool
	A4   [4]inner2
	B4   [4]bool
	A5   [5]inner2
	B5   [5]bool
	A6   [6]inner2
	B6   [6]bool
	A7   [7]inner2
	B7   [7]bool
	A8   [8]inner2
	B8   [8]bool
	A9   [9]inner2
	B9   [9]bool
	A10  [10]inner2
	B10  [10]bool
	A11  [11]inner2
	B11  [11]bool
	A12  [12]inner2
	B12  [12]bool
	A13  [13]inner2
	B13  [13]bool
	A14  [14]inner2
	B14  [14]bool
	A15  [15]inner2
	B15  [15]bool
	A16  [16]inner2
	B16  [16]bool
	A17  [17]inner2
	B17  [17]bool
	A18  [18]inner2
	B18  [18]bool
	A19  [19]inner2
	B19  [19]bool
	A20  [20]inner2
	B20  [20]bool
	A21  [21]inner2
	B21  [21]bool
	A22  [22]inner2
	B22  [22]bool
	A23  [23]inner2
	B23  [23]bool
	A24  [24]inner2
	B24  [24]bool
	A25  [25]inner2
	B25  [25]bool
	A26  [26]inner2
	B26  [26]bool
	A27  [27]inner2
	B27  [27]bool
	A28  [28]inner2
	B28  [28]bool
	A29  [29]inner2
	B29  [29]bool
	A30  [30]inner2
	B30  [30]bool
	A31  [31]inner2
	B31  [31]bool
	A32  [32]inner2
	B32  [32]bool
	A33  [33]inner2
	B33  [33]bool
	A34  [34]inner2
	B34  [34]bool
	A63  [63]inner2
	B63  [63]bool
	A64  [64]inner2
	B64  [64]bool
	A65  [65]inner2
	B65  [65]bool
	A127 [127]inner2
	B127 [127]bool
	A128 [128]inner2
	B128 [128]bool
	A129 [129]inner2
	B129 [129]bool
	Z    uint8
}

func mkArrSt(b *B) (interface{}, interface{}) {
	v := &tArrSt{}
	for i := range v.A1 {
		v.A1[i].A = uint8(b.el(i, 1, 1))
	}
	for i := range v.B1 {
		v.B1[i] = i%3 == 0
		if i == 0 {
			v.B1[i] = b.boolean()
		} else if v.B1[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A2 {
		v.A2[i].A = uint8(b.el(i, 2, 1))
	}
	for i := range v.B2 {
		v.B2[i] = i%3 == 0
		if i == 1 {
			v.B2[i] = b.boolean()
		} else if v.B2[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A3 {
		v.A3[i].A = uint8(b.el(i, 3, 1))
	}
	for i := range v.B3 {
		v.B3[i] = i%3 == 0
		if i == 2 {
			v.B3[i] = b.boolean()
		} else if v.B3[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A4 {
		v.A4[i].A = uint8(b.el(i, 4, 1))
	}
	for i := range v.B4 {
		v.B4[i] = i%3 == 0
		if i == 3 {
			v.B4[i] = b.boolean()
		} else if v.B4[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A5 {
		v.A5[i].A = uint8(b.el(i, 5, 1))
	}
	for i := range v.B5 {
		v.B5[i] = i%3 == 0
		if i == 4 {
			v.B5[i] = b.boolean()
		} else if v.B5[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A6 {
		v.A6[i].A = uint8(b.el(i, 6, 1))
	}
	for i := range v.B6 {
		v.B6[i] = i%3 == 0
		if i == 5 {
			v.B6[i] = b.boolean()
		} else if v.B6[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A7 {
		v.A7[i].A = uint8(b.el(i, 7, 1))
	}
	for i := range v.B7 {
		v.B7[i] = i%3 == 0
		if i == 6 {
			v.B7[i] = b.boolean()
		} else if v.B7[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A8 {
		v.A8[i].A = uint8(b.el(i, 8, 1))
	}
	for i := range v.B8 {
		v.B8[i] = i%3 == 0
		if i == 7 {
			v.B8[i] = b.boolean()
		} else if v.B8[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A9 {
		v.A9[i].A = uint8(b.el(i, 9, 1))
	}
	for i := range v.B9 {
		v.B9[i] = i%3 == 0
		if i == 8 {
			v.B9[i] = b.boolean()
		} else if v.B9[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A10 {
		v.A10[i].A = uint8(b.el(i, 10, 1))
	}
	for i := range v.B10 {
		v.B10[i] = i%3 == 0
		if i == 9 {
			v.B10[i] = b.boolean()
		} else if v.B10[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A11 {
		v.A11[i].A = uint8(b.el(i, 11, 1))
	}
	for i := range v.B11 {
		v.B11[i] = i%3 == 0
		if i == 10 {
			v.B11[i] = b.boolean()
		} else if v.B11[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A12 {
		v.A12[i].A = uint8(b.el(i, 12, 1))
	}
	for i := range v.B12 {
		v.B12[i] = i%3 == 0
		if i == 11 {
			v.B12[i] = b.boolean()
		} else if v.B12[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A13 {
		v.A13[i].A = uint8(b.el(i, 13, 1))
	}
	for i := range v.B13 {
		v.B13[i] = i%3 == 0
		if i == 12 {
			v.B13[i] = b.boolean()
		} else if v.B13[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A14 {
		v.A14[i].A = uint8(b.el(i, 14, 1))
	}
	for i := range v.B14 {
		v.B14[i] = i%3 == 0
		if i == 13 {
			v.B14[i] = b.boolean()
		} else if v.B14[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A15 {
		v.A15[i].A = uint8(b.el(i, 15, 1))
	}
	for i := range v.B15 {
		v.B15[i] = i%3 == 0
		if i == 14 {
			v.B15[i] = b.boolean()
		} else if v.B15[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A16 {
		v.A16[i].A = uint8(b.el(i, 16, 1))
	}
	for i := range v.B16 {
		v.B16[i] = i%3 == 0
		if i == 15 {
			v.B16[i] = b.boolean()
		} else if v.B16[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A17 {
		v.A17[i].A = uint8(b.el(i, 17, 1))
	}
	for i := range v.B17 {
		v.B17[i] = i%3 == 0
		if i == 16 {
			v.B17[i] = b.boolean()
		} else if v.B17[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A18 {
		v.A18[i].A = uint8(b.el(i, 18, 1))
	}
	for i := range v.B18 {
		v.B18[i] = i%3 == 0
		if i == 17 {
			v.B18[i] = b.boolean()
		} else if v.B18[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A19 {
		v.A19[i].A = uint8(b.el(i, 19, 1))
	}
	for i := range v.B19 {
		v.B19[i] = i%3 == 0
		if i == 18 {
			v.B19[i] = b.boolean()
		} else if v.B19[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A20 {
		v.A20[i].A = uint8(b.el(i, 20, 1))
	}
	for i := range v.B20 {
		v.B20[i] = i%3 == 0
		if i == 19 {
			v.B20[i] = b.boolean()
		} else if v.B20[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A21 {
		v.A21[i].A = uint8(b.el(i, 21, 1))
	}
	for i := range v.B21 {
		v.B21[i] = i%3 == 0
		if i == 20 {
			v.B21[i] = b.boolean()
		} else if v.B21[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A22 {
		v.A22[i].A = uint8(b.el(i, 22, 1))
	}
	for i := range v.B22 {
		v.B22[i] = i%3 == 0
		if i == 21 {
			v.B22[i] = b.boolean()
		} else if v.B22[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A23 {
		v.A23[i].A = uint8(b.el(i, 23, 1))
	}
	for i := range v.B23 {
		v.B23[i] = i%3 == 0
		if i == 22 {
			v.B23[i] = b.boolean()
		} else if v.B23[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A24 {
		v.A24[i].A = uint8(b.el(i, 24, 1))
	}
	for i := range v.B24 {
		v.B24[i] = i%3 == 0
		if i == 23 {
			v.B24[i] = b.boolean()
		} else if v.B24[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A25 {
		v.A25[i].A = uint8(b.el(i, 25, 1))
	}
	for i := range v.B25 {
		v.B25[i] = i%3 == 0
		if i == 24 {
			v.B25[i] = b.boolean()
		} else if v.B25[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A26 {
		v.A26[i].A = uint8(b.el(i, 26, 1))
	}
	for i := range v.B26 {
		v.B26[i] = i%3 == 0
		if i == 25 {
			v.B26[i] = b.boolean()
		} else if v.B26[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A27 {
		v.A27[i].A = uint8(b.el(i, 27, 1))
	}
	for i := range v.B27 {
		v.B27[i] = i%3 == 0
		if i == 26 {
			v.B27[i] = b.boolean()
		} else if v.B27[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A28 {
		v.A28[i].A = uint8(b.el(i, 28, 1))
	}
	for i := range v.B28 {
		v.B28[i] = i%3 == 0
		if i == 27 {
			v.B28[i] = b.boolean()
		} else if v.B28[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A29 {
		v.A29[i].A = uint8(b.el(i, 29, 1))
	}
	for i := range v.B29 {
		v.B29[i] = i%3 == 0
		if i == 28 {
			v.B29[i] = b.boolean()
		} else if v.B29[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A30 {
		v.A30[i].A = uint8(b.el(i, 30, 1))
	}
	for i := range v.B30 {
		v.B30[i] = i%3 == 0
		if i == 29 {
			v.B30[i] = b.boolean()
		} else if v.B30[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A31 {
		v.A31[i].A = uint8(b.el(i, 31, 1))
	}
	for i := range v.B31 {
		v.B31[i] = i%3 == 0
		if i == 30 {
			v.B31[i] = b.boolean()
		} else if v.B31[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A32 {
		v.A32[i].A = uint8(b.el(i, 32, 1))
	}
	for i := range v.B32 {
		v.B32[i] = i%3 == 0
		if i == 31 {
			v.B32[i] = b.boolean()
		} else if v.B32[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A33 {
		v.A33[i].A = uint8(b.el(i, 33, 1))
	}
	for i := range v.B33 {
		v.B33[i] = i%3 == 0
		if i == 32 {
			v.B33[i] = b.boolean()
		} else if v.B33[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A34 {
		v.A34[i].A = uint8(b.el(i, 34, 1))
	}
	for i := range v.B34 {
		v.B34[i] = i%3 == 0
		if i == 33 {
			v.B34[i] = b.boolean()
		} else if v.B34[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A63 {
		v.A63[i].A = uint8(b.el(i, 63, 1))
	}
	for i := range v.B63 {
		v.B63[i] = i%3 == 0
		if i == 62 {
			v.B63[i] = b.boolean()
		} else if v.B63[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A64 {
		v.A64[i].A = uint8(b.el(i, 64, 1))
	}
	for i := range v.B64 {
		v.B64[i] = i%3 == 0
		if i == 63 {
			v.B64[i] = b.boolean()
		} else if v.B64[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A65 {
		v.A65[i].A = uint8(b.el(i, 65, 1))
	}
	for i := range v.B65 {
		v.B65[i] = i%3 == 0
		if i == 64 {
			v.B65[i] = b.boolean()
		} else if v.B65[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A127 {
		v.A127[i].A = uint8(b.el(i, 127, 1))
	}
	for i := range v.B127 {
		v.B127[i] = i%3 == 0
		if i == 126 {
			v.B127[i] = b.boolean()
		} else if v.B127[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A128 {
		v.A128[i].A = uint8(b.el(i, 128, 1))
	}
	for i := range v.B128 {
		v.B128[i] = i%3 == 0
		if i == 127 {
			v.B128[i] = b.boolean()
		} else if v.B128[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	for i := range v.A129 {
		v.A129[i].A = uint8(b.el(i, 129, 1))
	}
	for i := range v.B129 {
		v.B129[i] = i%3 == 0
		if i == 128 {
			v.B129[i] = b.boolean()
		} else if v.B129[i] {
			b.out = append(b.out, 1)
		} else {
			b.out = append(b.out, 0)
		}
	}
	v.Z = b.u8()
	return v, &tArrSt{}
}

type tWide struct {
	F0   uint32
	F1   string
	F2   uint16 `bin:"big"`
	F3   uint32
	F4   *uint8 `bin:"optional"`
	F5   uint8  `bin:"-"`
	N6   uint16 `bin:"sizeof=F6"`
	M6   uint8
	F6   []uint8
	F7   uint32
	F8   string
	F9   uint16 `bin:"big"`
	F10  uint32
	F11  *uint8 `bin:"optional"`
	F12  uint8  `bin:"-"`
	N13  uint16 `bin:"sizeof=F13"`
	M13  uint8
	F13  []uint8
	F14  uint32
	F15  string
	F16  uint16 `bin:"big"`
	F17  uint32
	F18  *uint8 `bin:"optional"`
	F19  uint8  `bin:"-"`
	N20  uint16 `bin:"sizeof=F20"`
	M20  uint8
	F20  []uint8
	F21  uint32
	F22  string
	F23  uint16 `bin:"big"`
	F24  uint32
	F25  *uint8 `bin:"optional"`
	F26  uint8  `bin:"-"`
	N27  uint16 `bin:"sizeof=F27"`
	M27  uint8
	F27  []uint8
	F28  uint32
	F29  string
	F30  uint16 `bin:"big"`
	F31  uint32
	F32  *uint8 `bin:"optional"`
	F33  uint8  `bin:"-"`
	N34  uint16 `bin:"sizeof=F34"`
	M34  uint8
	F34  []uint8
	F35  uint32
	F36  string
	F37  uint16 `bin:"big"`
	F38  uint32
	F39  *uint8 `bin:"optional"`
	F40  uint8  `bin:"-"`
	N41  uint16 `bin:"sizeof=F41"`
	M41  uint8
	F41  []uint8
	F42  uint32
	F43  string
	F44  uint16 `bin:"big"`
	F45  uint32
	F46  *uint8 `bin:"optional"`
	F47  uint8  `bin:"-"`
	N48  uint16 `bin:"sizeof=F48"`
	M48  uint8
	F48  []uint8
	F49  uint32
	F50  string
	F51  uint16 `bin:"big"`
	F52  uint32
	F53  *uint8 `bin:"optional"`
	F54  uint8  `bin:"-"`
	N55  uint16 `bin:"sizeof=F55"`
	M55  uint8
	F55  []uint8
	F56  uint32
	F57  string
	F58  uint16 `bin:"big"`
	F59  uint32
	F60  *uint8 `bin:"optional"`
	F61  uint8  `bin:"-"`
	N62  uint16 `bin:"sizeof=F62"`
	M62  uint8
	F62  []uint8
	F63  uint32
	F64  string
	F65  uint16 `bin:"big"`
	F66  uint32
	F67  *uint8 `bin:"optional"`
	F68  uint8  `bin:"-"`
	N69  uint16 `bin:"sizeof=F69"`
	M69  uint8
	F69  []uint8
	F70  uint32
	F71  string
	F72  uint16 `bin:"big"`
	F73  uint32
	F74  *uint8 `bin:"optional"`
	F75  uint8  `bin:"-"`
	N76  uint16 `bin:"sizeof=F76"`
	M76  uint8
	F76  []uint8
	F77  uint32
	F78  string
	F79  uint16 `bin:"big"`
	F80  uint32
	F81  *uint8 `bin:"optional"`
	F82  uint8  `bin:"-"`
	N83  uint16 `bin:"sizeof=F83"`
	M83  uint8
	F83  []uint8
	F84  uint32
	F85  string
	F86  uint16 `bin:"big"`
	F87  uint32
	F88  *uint8 `bin:"optional"`
	F89  uint8  `bin:"-"`
	N90  uint16 `bin:"sizeof=F90"`
	M90  uint8
	F90  []uint8
	F91  uint32
	F92  string
	F93  uint16 `bin:"big"`
	F94  uint32
	F95  *uint8 `bin:"optional"`
	F96  uint8  `bin:"-"`
	N97  uint16 `bin:"sizeof=F97"`
	M97  uint8
	F97  []uint8
	F98  uint32
	F99  string
	F100 uint16 `bin:"big"`
	F101 uint32
	F102 *uint8 `bin:"optional"`
	F103 uint8  `bin:"-"`
	N104 uint16 `bin:"sizeof=F104"`
	M104 uint8
	F104 []uint8
	F105 uint32
	F106 string
	F107 uint16 `bin:"big"`
	F108 uint32
	F109 *uint8 `bin:"optional"`
	F110 uint8  `bin:"-"`
	N111 uint16 `bin:"sizeof=F111"`
	M111 uint8
	F111 []uint8
	F112 uint32
	F113 string
	F114 uint16 `bin:"big"`
	F115 uint32
	F116 *uint8 `bin:"optional"`
	F117 uint8  `bin:"-"`
	N118 uint16 `bin:"sizeof=F118"`
	M118 uint8
	F118 []uint8
	F119 uint32
	F120 string
	F121 uint16 `bin:"big"`
	F122 uint32
	F123 *uint8 `bin:"optional"`
	F124 uint8  `bin:"-"`
	N125 uint16 `bin:"sizeof=F125"`
	M125 uint8
	F125 []uint8
	F126 uint32
	F127 string
	F128 uint16 `bin:"big"`
	F129 uint32
	F130 *uint8 `bin:"optional"`
	F131 uint8  `bin:"-"`
	N132 uint16 `bin:"sizeof=F132"`
	M132 uint8
	F132 []uint8
	F133 uint32
	F134 string
	F135 uint16 `bin:"big"`
	F136 uint32
	F137 *uint8 `bin:"optional"`
	F138 uint8  `bin:"-"`
	N139 uint16 `bin:"sizeof=F139"`
	M139 uint8
	F139 []uint8
	F140 uint32
	F141 string
	F142 uint16 `bin:"big"`
	F143 uint32
	F144 *uint8 `bin:"optional"`
	F145 uint8  `bin:"-"`
	N146 uint16 `bin:"sizeof=F146"`
	M146 uint8
	F146 []uint8
	F147 uint32
	F148 string
	F149 uint16 `bin:"big"`
	F150 uint32
	F151 *uint8 `bin:"optional"`
	F152 uint8  `bin:"-"`
	N153 uint16 `bin:"sizeof=F153"`
	M153 uint8
	F153 []uint8
	F154 uint32
	F155 string
	F156 uint16 `bin:"big"`
	F157 uint32
	F158 *uint8 `bin:"optional"`
	F159 uint8  `bin:"-"`
	N160 uint16 `bin:"sizeof=F160"`
	M160 uint8
	F160 []uint8
	F161 uint32
	F162 string
	F163 uint16 `bin:"big"`
	F164 uint32
	F165 *uint8 `bin:"optional"`
	F166 uint8  `bin:"-"`
	N167 uint16 `bin:"sizeof=F167"`
	M167 uint8
	F167 []uint8
	F168 uint32
	F169 string
	F170 uint16 `bin:"big"`
	F171 uint32
	F172 *uint8 `bin:"optional"`
	F173 uint8  `bin:"-"`
	N174 uint16 `bin:"sizeof=F174"`
	M174 uint8
	F174 []uint8
	F175 uint32
	F176 string
	F177 uint16 `bin:"big"`
	F178 uint32
	F179 *uint8 `bin:"optional"`
	F180 uint8  `bin:"-"`
	N181 uint16 `bin:"sizeof=F181"`
	M181 uint8
	F181 []uint8
	F182 uint32
	F183 string
	F184 uint16 `bin:"big"`
	F185 uint32
	F186 *uint8 `bin:"optional"`
	F187 uint8  `bin:"-"`
	N188 uint16 `bin:"sizeof=F188"`
	M188 uint8
	F188 []uint8
	F189 uint32
	F190 string
	F191 uint16 `bin:"big"`
	F192 uint32
	F193 *uint8 `bin:"optional"`
	F194 uint8  `bin:"-"`
	N195 uint16 `bin:"sizeof=F195"`
	M195 uint8
	F195 []uint8
	F196 uint32
	F197 string
	F198 uint16 `bin:"big"`
	F199 uint32
	F200 *uint8 `bin:"optional"`
	F201 uint8  `bin:"-"`
	N202 uint16 `bin:"sizeof=F202"`
	M202 uint8
	F202 []uint8
	F203 uint32
	F204 string
	F205 uint16 `bin:"big"`
	F206 uint32
	F207 *uint8 `bin:"optional"`
	F208 uint8  `bin:"-"`
	N209 uint16 `bin:"sizeof=F209"`
	M209 uint8
	F209 []uint8
	F210 uint32
	F211 string
	F212 uint16 `bin:"big"`
	F213 uint32
	F214 *uint8 `bin:"optional"`
	F215 uint8  `bin:"-"`
	N216 uint16 `bin:"sizeof=F216"`
	M216 uint8
	F216 []uint8
	F217 uint32
	F218 string
	F219 uint16 `bin:"big"`
	F220 uint32
	F221 *uint8 `bin:"optional"`
	F222 uint8  `bin:"-"`
	N223 uint16 `bin:"sizeof=F223"`
	M223 uint8
	F223 []uint8
	F224 uint32
	F225 string
	F226 uint16 `bin:"big"`
	F227 uint32
	F228 *uint8 `bin:"optional"`
	F229 uint8  `bin:"-"`
	N230 uint16 `bin:"sizeof=F230"`
	M230 uint8
	F230 []uint8
	F231 uint32
	F232 string
	F233 uint16 `bin:"big"`
	F234 uint32
	F235 *uint8 `bin:"optional"`
	F236 uint8  `bin:"-"`
	N237 uint16 `bin:"sizeof=F237"`
	M237 uint8
	F237 []uint8
	F238 uint32
	F239 string
	F240 uint16 `bin:"big"`
	F241 uint32
	F242 *uint8 `bin:"optional"`
	F243 uint8  `bin:"-"`
	N244 uint16 `bin:"sizeof=F244"`
	M244 uint8
	F244 []uint8
	F245 uint32
	F246 string
	F247 uint16 `bin:"big"`
	F248 uint32
	F249 *uint8 `bin:"optional"`
	F250 uint8  `bin:"-"`
	N251 uint16 `bin:"sizeof=F251"`
	M251 uint8
	F251 []uint8
	F252 uint32
	F253 string
	F254 uint16 `bin:"big"`
	F255 uint32
	F256 *uint8 `bin:"optional"`
	F257 uint8  `bin:"-"`
	N258 uint16 `bin:"sizeof=F258"`
	M258 uint8
	F258 []uint8
	F259 uint32
	F260 string
	F261 uint16 `bin:"big"`
	F262 uint32
	F263 *uint8 `bin:"optional"`
	F264 uint8  `bin:"-"`
	N265 uint16 `bin:"sizeof=F265"`
	M265 uint8
	F265 []uint8
	F266 uint32
	F267 string
	F268 uint16 `bin:"big"`
	F269 uint32
	F270 *uint8 `bin:"optional"`
	F271 uint8  `bin:"-"`
	N272 uint16 `bin:"sizeof=F272"`
	M272 uint8
	F272 []uint8
	F273 uint32
	F274 string
	F275 uint16 `bin:"big"`
	F276 uint32
	F277 *uint8 `bin:"optional"`
	F278 uint8  `bin:"-"`
	N279 uint16 `bin:"sizeof=F279"`
	M279 uint8
	F279 []uint8
	F280 uint32
	F281 string
	F282 uint16 `bin:"big"`
	F283 uint32
	F284 *uint8 `bin:"optional"`
	F285 uint8  `bin:"-"`
	N286 uint16 `bin:"sizeof=F286"`
	M286 uint8
	F286 []uint8
	F287 uint32
	F288 string
	F289 uint16 `bin:"big"`
	F290 uint32
	F291 *uint8 `bin:"optional"`
	F292 uint8  `bin:"-"`
	N293 uint16 `bin:"sizeof=F293"`
	M293 uint8
	F293 []uint8
	F294 uint32
	F295 string
	F296 uint16 `bin:"big"`
	F297 uint32
	F298 *uint8 `bin:"optional"`
	F299 uint8  `bin:"-"`
}

func mkWide(b *B) (interface{}, interface{}) {
	v := &tWide{}
	v.F0 = b.u32(false)
	v.F1 = b.str(1)
	v.F2 = b.u16(true)
	v.F3 = b.u32(false)
	b.opt(true)
	v.F4 = new(uint8)
	*v.F4 = b.u8()
	v.N6 = 2
	b.out = append(b.out, 2, 0)
	v.M6 = b.u8()
	v.F6 = b.arr(2)
	v.F7 = b.u32(false)
	v.F8 = b.str(2)
	v.F9 = b.u16(true)
	v.F10 = b.u32(false)
	b.opt(false)
	v.N13 = 1
	b.out = append(b.out, 1, 0)
	v.M13 = b.u8()
	v.F13 = b.arr(1)
	v.F14 = b.u32(false)
	v.F15 = b.str(0)
	v.F16 = b.u16(true)
	v.F17 = b.u32(false)
	b.opt(true)
	v.F18 = new(uint8)
	*v.F18 = b.u8()
	v.N20 = 0
	b.out = append(b.out, 0, 0)
	v.M20 = b.u8()
	v.F20 = b.arr(0)
	v.F21 = b.u32(false)
	v.F22 = b.str(1)
	v.F23 = b.u16(true)
	v.F24 = b.u32(false)
	b.opt(false)
	v.N27 = 3
	b.out = append(b.out, 3, 0)
	v.M27 = b.u8()
	v.F27 = b.arr(3)
	v.F28 = b.u32(false)
	v.F29 = b.str(2)
	v.F30 = b.u16(true)
	v.F31 = b.u32(false)
	b.opt(true)
	v.F32 = new(uint8)
	*v.F32 = b.u8()
	v.N34 = 2
	b.out = append(b.out, 2, 0)
	v.M34 = b.u8()
	v.F34 = b.arr(2)
	v.F35 = b.u32(false)
	v.F36 = b.str(0)
	v.F37 = b.u16(true)
	v.F38 = b.u32(false)
	b.opt(false)
	v.N41 = 1
	b.out = append(b.out, 1, 0)
	v.M41 = b.u8()
	v.F41 = b.arr(1)
	v.F42 = b.u32(false)
	v.F43 = b.str(1)
	v.F44 = b.u16(true)
	v.F45 = b.u32(false)
	b.opt(true)
	v.F46 = new(uint8)
	*v.F46 = b.u8()
	v.N48 = 0
	b.out = append(b.out, 0, 0)
	v.M48 = b.u8()
	v.F48 = b.arr(0)
	v.F49 = b.u32(false)
	v.F50 = b.str(2)
	v.F51 = b.u16(true)
	v.F52 = b.u32(false)
	b.opt(false)
	v.N55 = 3
	b.out = append(b.out, 3, 0)
	v.M55 = b.u8()
	v.F55 = b.arr(3)
	v.F56 = b.u32(false)
	v.F57 = b.str(0)
	v.F58 = b.u16(true)
	v.F59 = b.u32(false)
	b.opt(true)
	v.F60 = new(uint8)
	*v.F60 = b.u8()
	v.N62 = 2
	b.out = append(b.out, 2, 0)
	v.M62 = b.u8()
	v.F62 = b.arr(2)
	v.F63 = b.u32(false)
	v.F64 = b.str(1)
	v.F65 = b.u16(true)
	v.F66 = b.u32(false)
	b.opt(false)
	v.N69 = 1
	b.out = append(b.out, 1, 0)
	v.M69 = b.u8()
	v.F69 = b.arr(1)
	v.F70 = b.u32(false)
	v.F71 = b.str(2)
	v.F72 = b.u16(true)
	v.F73 = b.u32(false)
	b.opt(true)
	v.F74 = new(uint8)
	*v.F74 = b.u8()
	v.N76 = 0
	b.out = append(b.out, 0, 0)
	v.M76 = b.u8()
	v.F76 = b.arr(0)
	v.F77 = b.u32(false)
	v.F78 = b.str(0)
	v.F79 = b.u16(true)
	v.F80 = b.u32(false)
	b.opt(false)
	v.N83 = 3
	b.out = append(b.out, 3, 0)
	v.M83 = b.u8()
	v.F83 = b.arr(3)
	v.F84 = b.u32(false)
	v.F85 = b.str(1)
	v.F86 = b.u16(true)
	v.F87 = b.u32(false)
	b.opt(true)
	v.F88 = new(uint8)
	*v.F88 = b.u8()
	v.N90 = 2
	b.out = append(b.out, 2, 0)
	v.M90 = b.u8()
	v.F90 = b.arr(2)
	v.F91 = b.u32(false)
	v.F92 = b.str(2)
	v.F93 = b.u16(true)
	v.F94 = b.u32(false)
	b.opt(false)
	v.N97 = 1
	b.out = append(b.out, 1, 0)
	v.M97 = b.u8()
	v.F97 = b.arr(1)
	v.F98 = b.u32(false)
	v.F99 = b.str(0)
	v.F100 = b.u16(true)
	v.F101 = b.u32(false)
	b.opt(true)
	v.F102 = new(uint8)
	*v.F102 = b.u8()
	v.N104 = 0
	b.out = append(b.out, 0, 0)
	v.M104 = b.u8()
	v.F104 = b.arr(0)
	v.F105 = b.u32(false)
	v.F106 = b.str(1)
	v.F107 = b.u16(true)
	v.F108 = b.u32(false)
	b.opt(false)
	v.N111 = 3
	b.out = append(b.out, 3, 0)
	v.M111 = b.u8()
	v.F111 = b.arr(3)
	v.F112 = b.u32(false)
	v.F113 = b.str(2)
	v.F114 = b.u16(true)
	v.F115 = b.u32(false)
	b.opt(true)
	v.F116 = new(uint8)
	*v.F116 = b.u8()
	v.N118 = 2
	b.out = append(b.out, 2, 0)
	v.M118 = b.u8()
	v.F118 = b.arr(2)
	v.F119 = b.u32(false)
	v.F120 = b.str(0)
	v.F121 = b.u16(true)
	v.F122 = b.u32(false)
	b.opt(false)
	v.N125 = 1
	b.out = append(b.out, 1, 0)
	v.M125 = b.u8()
	v.F125 = b.arr(1)
	v.F126 = b.u32(false)
	v.F127 = b.str(1)
	v.F128 = b.u16(true)
	v.F129 = b.u32(false)
	b.opt(true)
	v.F130 = new(uint8)
	*v.F130 = b.u8()
	v.N132 = 0
	b.out = append(b.out, 0, 0)
	v.M132 = b.u8()
	v.F132 = b.arr(0)
	v.F133 = b.u32(false)
	v.F134 = b.str(2)
	v.F135 = b.u16(true)
	v.F136 = b.u32(false)
	b.opt(false)
	v.N139 = 3
	b.out = append(b.out, 3, 0)
	v.M139 = b.u8()
	v.F139 = b.arr(3)
	v.F140 = b.u32(false)
	v.F141 = b.str(0)
	v.F142 = b.u16(true)
	v.F143 = b.u32(false)
	b.opt(true)
	v.F144 = new(uint8)
	*v.F144 = b.u8()
	v.N146 = 2
	b.out = append(b.out, 2, 0)
	v.M146 = b.u8()
	v.F146 = b.arr(2)
	v.F147 = b.u32(false)
	v.F148 = b.str(1)
	v.F149 = b.u16(true)
	v.F150 = b.u32(false)
	b.opt(false)
	v.N153 = 1
	b.out = append(b.out, 1, 0)
	v.M153 = b.u8()
	v.F153 = b.arr(1)
	v.F154 = b.u32(false)
	v.F155 = b.str(2)
	v.F156 = b.u16(true)
	v.F157 = b.u32(false)
	b.opt(true)
	v.F158 = new(uint8)
	*v.F158 = b.u8()
	v.N160 = 0
	b.out = append(b.out, 0, 0)
	v.M160 = b.u8()
	v.F160 = b.arr(0)
	v.F161 = b.u32(false)
	v.F162 = b.str(0)
	v.F163 = b.u16(true)
	v.F164 = b.u32(false)
	b.opt(false)
	v.N167 = 3
	b.out = append(b.out, 3, 0)
	v.M167 = b.u8()
	v.F167 = b.arr(3)
	v.F168 = b.u32(false)
	v.F169 = b.str(1)
	v.F170 = b.u16(true)
	v.F171 = b.u32(false)
	b.opt(true)
	v.F172 = new(uint8)
	*v.F172 = b.u8()
	v.N174 = 2
	b.out = append(b.out, 2, 0)
	v.M174 = b.u8()
	v.F174 = b.arr(2)
	v.F175 = b.u32(false)
	v.F176 = b.str(2)
	v.F177 = b.u16(true)
	v.F178 = b.u32(false)
	b.opt(false)
	v.N181 = 1
	b.out = append(b.out, 1, 0)
	v.M181 = b.u8()
	v.F181 = b.arr(1)
	v.F182 = b.u32(false)
	v.F183 = b.str(0)
	v.F184 = b.u16(true)
	v.F185 = b.u32(false)
	b.opt(true)
	v.F186 = new(uint8)
	*v.F186 = b.u8()
	v.N188 = 0
	b.out = append(b.out, 0, 0)
	v.M188 = b.u8()
	v.F188 = b.arr(0)
	v.F189 = b.u32(false)
	v.F190 = b.str(1)
	v.F191 = b.u16(true)
	v.F192 = b.u32(false)
	b.opt(false)
	v.N195 = 3
	b.out = append(b.out, 3, 0)
	v.M195 = b.u8()
	v.F195 = b.arr(3)
	v.F196 = b.u32(false)
	v.F197 = b.str(2)
	v.F198 = b.u16(true)
	v.F199 = b.u32(false)
	b.opt(true)
	v.F200 = new(uint8)
	*v.F200 = b.u8()
	v.N202 = 2
	b.out = append(b.out, 2, 0)
	v.M202 = b.u8()
	v.F202 = b.arr(2)
	v.F203 = b.u32(false)
	v.F204 = b.str(0)
	v.F205 = b.u16(true)
	v.F206 = b.u32(false)
	b.opt(false)
	v.N209 = 1
	b.out = append(b.out, 1, 0)
	v.M209 = b.u8()
	v.F209 = b.arr(1)
	v.F210 = b.u32(false)
	v.F211 = b.str(1)
	v.F212 = b.u16(true)
	v.F213 = b.u32(false)
	b.opt(true)
	v.F214 = new(uint8)
	*v.F214 = b.u8()
	v.N216 = 0
	b.out = append(b.out, 0, 0)
	v.M216 = b.u8()
	v.F216 = b.arr(0)
	v.F217 = b.u32(false)
	v.F218 = b.str(2)
	v.F219 = b.u16(true)
	v.F220 = b.u32(false)
	b.opt(false)
	v.N223 = 3
	b.out = append(b.out, 3, 0)
	v.M223 = b.u8()
	v.F223 = b.arr(3)
	v.F224 = b.u32(false)
	v.F225 = b.str(0)
	v.F226 = b.u16(true)
	v.F227 = b.u32(false)
	b.opt(true)
	v.F228 = new(uint8)
	*v.F228 = b.u8()
	v.N230 = 2
	b.out = append(b.out, 2, 0)
	v.M230 = b.u8()
	v.F230 = b.arr(2)
	v.F231 = b.u32(false)
	v.F232 = b.str(1)
	v.F233 = b.u16(true)
	v.F234 = b.u32(false)
	b.opt(false)
	v.N237 = 1
	b.out = append(b.out, 1, 0)
	v.M237 = b.u8()
	v.F237 = b.arr(1)
	v.F238 = b.u32(false)
	v.F239 = b.str(2)
	v.F240 = b.u16(true)
	v.F241 = b.u32(false)
	b.opt(true)
	v.F242 = new(uint8)
	*v.F242 = b.u8()
	v.N244 = 0
	b.out = append(b.out, 0, 0)
	v.M244 = b.u8()
	v.F244 = b.arr(0)
	v.F245 = b.u32(false)
	v.F246 = b.str(0)
	v.F247 = b.u16(true)
	v.F248 = b.u32(false)
	b.opt(false)
	v.N251 = 3
	b.out = append(b.out, 3, 0)
	v.M251 = b.u8()
	v.F251 = b.arr(3)
	v.F252 = b.u32(false)
	v.F253 = b.str(1)
	v.F254 = b.u16(true)
	v.F255 = b.u32(false)
	b.opt(true)
	v.F256 = new(uint8)
	*v.F256 = b.u8()
	v.N258 = 2
	b.out = append(b.out, 2, 0)
	v.M258 = b.u8()
	v.F258 = b.arr(2)
	v.F259 = b.u32(false)
	v.F260 = b.str(2)
	v.F261 = b.u16(true)
	v.F262 = b.u32(false)
	b.opt(false)
	v.N265 = 1
	b.out = append(b.out, 1, 0)
	v.M265 = b.u8()
	v.F265 = b.arr(1)
	v.F266 = b.u32(false)
	v.F267 = b.str(0)
	v.F268 = b.u16(true)
	v.F269 = b.u32(false)
	b.opt(true)
	v.F270 = new(uint8)
	*v.F270 = b.u8()
	v.N272 = 0
	b.out = append(b.out, 0, 0)
	v.M272 = b.u8()
	v.F272 = b.arr(0)
	v.F273 = b.u32(false)
	v.F274 = b.str(1)
	v.F275 = b.u16(true)
	v.F276 = b.u32(false)
	b.opt(false)
	v.N279 = 3
	b.out = append(b.out, 3, 0)
	v.M279 = b.u8()
	v.F279 = b.arr(3)
	v.F280 = b.u32(false)
	v.F281 = b.str(2)
	v.F282 = b.u16(true)
	v.F283 = b.u32(false)
	b.opt(true)
	v.F284 = new(uint8)
	*v.F284 = b.u8()
	v.N286 = 2
	b.out = append(b.out, 2, 0)
	v.M286 = b.u8()
	v.F286 = b.arr(2)
	v.F287 = b.u32(false)
	v.F288 = b.str(0)
	v.F289 = b.u16(true)
	v.F290 = b.u32(false)
	b.opt(false)
	v.N293 = 1
	b.out = append(b.out, 1, 0)
	v.M293 = b.u8()
	v.F293 = b.arr(1)
	v.F294 = b.u32(false)
	v.F295 = b.str(1)
	v.F296 = b.u16(true)
	v.F297 = b.u32(false)
	b.opt(true)
	v.F298 = new(uint8)
	*v.F298 = b.u8()
	return v, &tWide{}
}
