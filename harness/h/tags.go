// Code generated by tools/gentags.py. DO NOT EDIT.

package h

import "github.com/gagliardetto/binary/zz_verif/sym"

type tg0 struct {
	A uint16
	F uint16 `bin:"foo"`
	B uint16
	P *uint32 `bin:"foo"`
	Z uint16
}

type tg1 struct {
	A uint16
	F uint16 `bin:"bigger"`
	B uint16
	P *uint32 `bin:"bigger"`
	Z uint16
}

type tg2 struct {
	A uint16
	F uint16 `bin:"opt"`
	B uint16
	P *uint32 `bin:"opt"`
	Z uint16
}

type tg3 struct {
	A uint16
	F uint16 `bin:"Big"`
	B uint16
	P *uint32 `bin:"Big"`
	Z uint16
}

type tg4 struct {
	A uint16
	F uint16 `bin:"sizeofX"`
	B uint16
	P *uint32 `bin:"sizeofX"`
	Z uint16
}

type tg5 struct {
	A uint16
	F uint16 `bin:"_"`
	B uint16
	P *uint32 `bin:"_"`
	Z uint16
}

type tg6 struct {
	A uint16
	F uint16 `bin:"OPTIONAL"`
	B uint16
	P *uint32 `bin:"OPTIONAL"`
	Z uint16
}

type tg7 struct {
	A uint16
	F uint16 `bin:"- foo"`
	B uint16
	P *uint32 `bin:"- foo"`
	Z uint16
}

type tg8 struct {
	A uint16
	F uint16 `bin:"foo -"`
	B uint16
	P *uint32 `bin:"foo -"`
	Z uint16
}

type tg9 struct {
	A uint16
	F uint16 `bin:"- bigger"`
	B uint16
	P *uint32 `bin:"- bigger"`
	Z uint16
}

type tg10 struct {
	A uint16
	F uint16 `bin:"bigger -"`
	B uint16
	P *uint32 `bin:"bigger -"`
	Z uint16
}

type tg11 struct {
	A uint16
	F uint16 `bin:"- opt"`
	B uint16
	P *uint32 `bin:"- opt"`
	Z uint16
}

type tg12 struct {
	A uint16
	F uint16 `bin:"opt -"`
	B uint16
	P *uint32 `bin:"opt -"`
	Z uint16
}

type tg13 struct {
	A uint16
	F uint16 `bin:"- Big"`
	B uint16
	P *uint32 `bin:"- Big"`
	Z uint16
}

type tg14 struct {
	A uint16
	F uint16 `bin:"Big -"`
	B uint16
	P *uint32 `bin:"Big -"`
	Z uint16
}

type tg15 struct {
	A uint16
	F uint16 `bin:"- sizeofX"`
	B uint16
	P *uint32 `bin:"- sizeofX"`
	Z uint16
}

type tg16 struct {
	A uint16
	F uint16 `bin:"sizeofX -"`
	B uint16
	P *uint32 `bin:"sizeofX -"`
	Z uint16
}

type tg17 struct {
	A uint16
	F uint16 `bin:"- _"`
	B uint16
	P *uint32 `bin:"- _"`
	Z uint16
}

type tg18 struct {
	A uint16
	F uint16 `bin:"_ -"`
	B uint16
	P *uint32 `bin:"_ -"`
	Z uint16
}

type tg19 struct {
	A uint16
	F uint16 `bin:"- OPTIONAL"`
	B uint16
	P *uint32 `bin:"- OPTIONAL"`
	Z uint16
}

type tg20 struct {
	A uint16
	F uint16 `bin:"OPTIONAL -"`
	B uint16
	P *uint32 `bin:"OPTIONAL -"`
	Z uint16
}

type tg21 struct {
	A uint16
	F uint16 `bin:"skip foo"`
	B uint16
	P *uint32 `bin:"skip foo"`
	Z uint16
}

type tg22 struct {
	A uint16
	F uint16 `bin:"foo skip"`
	B uint16
	P *uint32 `bin:"foo skip"`
	Z uint16
}

type tg23 struct {
	A uint16
	F uint16 `bin:"skip bigger"`
	B uint16
	P *uint32 `bin:"skip bigger"`
	Z uint16
}

type tg24 struct {
	A uint16
	F uint16 `bin:"bigger skip"`
	B uint16
	P *uint32 `bin:"bigger skip"`
	Z uint16
}

type tg25 struct {
	A uint16
	F uint16 `bin:"skip opt"`
	B uint16
	P *uint32 `bin:"skip opt"`
	Z uint16
}

type tg26 struct {
	A uint16
	F uint16 `bin:"opt skip"`
	B uint16
	P *uint32 `bin:"opt skip"`
	Z uint16
}

type tg27 struct {
	A uint16
	F uint16 `bin:"skip Big"`
	B uint16
	P *uint32 `bin:"skip Big"`
	Z uint16
}

type tg28 struct {
	A uint16
	F uint16 `bin:"Big skip"`
	B uint16
	P *uint32 `bin:"Big skip"`
	Z uint16
}

type tg29 struct {
	A uint16
	F uint16 `bin:"skip sizeofX"`
	B uint16
	P *uint32 `bin:"skip sizeofX"`
	Z uint16
}

type tg30 struct {
	A uint16
	F uint16 `bin:"sizeofX skip"`
	B uint16
	P *uint32 `bin:"sizeofX skip"`
	Z uint16
}

type tg31 struct {
	A uint16
	F uint16 `bin:"skip _"`
	B uint16
	P *uint32 `bin:"skip _"`
	Z uint16
}

type tg32 struct {
	A uint16
	F uint16 `bin:"_ skip"`
	B uint16
	P *uint32 `bin:"_ skip"`
	Z uint16
}

type tg33 struct {
	A uint16
	F uint16 `bin:"skip OPTIONAL"`
	B uint16
	P *uint32 `bin:"skip OPTIONAL"`
	Z uint16
}

type tg34 struct {
	A uint16
	F uint16 `bin:"OPTIONAL skip"`
	B uint16
	P *uint32 `bin:"OPTIONAL skip"`
	Z uint16
}

type tg35 struct {
	A uint16
	F uint16 `bin:"optional foo"`
	B uint16
	P *uint32 `bin:"optional foo"`
	Z uint16
}

type tg36 struct {
	A uint16
	F uint16 `bin:"foo optional"`
	B uint16
	P *uint32 `bin:"foo optional"`
	Z uint16
}

type tg37 struct {
	A uint16
	F uint16 `bin:"optional bigger"`
	B uint16
	P *uint32 `bin:"optional bigger"`
	Z uint16
}

type tg38 struct {
	A uint16
	F uint16 `bin:"bigger optional"`
	B uint16
	P *uint32 `bin:"bigger optional"`
	Z uint16
}

type tg39 struct {
	A uint16
	F uint16 `bin:"optional opt"`
	B uint16
	P *uint32 `bin:"optional opt"`
	Z uint16
}

type tg40 struct {
	A uint16
	F uint16 `bin:"opt optional"`
	B uint16
	P *uint32 `bin:"opt optional"`
	Z uint16
}

type tg41 struct {
	A uint16
	F uint16 `bin:"optional Big"`
	B uint16
	P *uint32 `bin:"optional Big"`
	Z uint16
}

type tg42 struct {
	A uint16
	F uint16 `bin:"Big optional"`
	B uint16
	P *uint32 `bin:"Big optional"`
	Z uint16
}

type tg43 struct {
	A uint16
	F uint16 `bin:"optional sizeofX"`
	B uint16
	P *uint32 `bin:"optional sizeofX"`
	Z uint16
}

type tg44 struct {
	A uint16
	F uint16 `bin:"sizeofX optional"`
	B uint16
	P *uint32 `bin:"sizeofX optional"`
	Z uint16
}

type tg45 struct {
	A uint16
	F uint16 `bin:"optional _"`
	B uint16
	P *uint32 `bin:"optional _"`
	Z uint16
}

type tg46 struct {
	A uint16
	F uint16 `bin:"_ optional"`
	B uint16
	P *uint32 `bin:"_ optional"`
	Z uint16
}

type tg47 struct {
	A uint16
	F uint16 `bin:"optional OPTIONAL"`
	B uint16
	P *uint32 `bin:"optional OPTIONAL"`
	Z uint16
}

type tg48 struct {
	A uint16
	F uint16 `bin:"OPTIONAL optional"`
	B uint16
	P *uint32 `bin:"OPTIONAL optional"`
	Z uint16
}

type tg49 struct {
	A uint16
	F uint16 `bin:"optional -"`
	B uint16
	P *uint32 `bin:"optional -"`
	Z uint16
}

type tg50 struct {
	A uint16
	F uint16 `bin:"- optional"`
	B uint16
	P *uint32 `bin:"- optional"`
	Z uint16
}

type tg51 struct {
	A uint16
	F uint16 `bin:"optional - opt"`
	B uint16
	P *uint32 `bin:"optional - opt"`
	Z uint16
}

type tg52 struct {
	A uint16
	F uint16 `bin:"optional opt -"`
	B uint16
	P *uint32 `bin:"optional opt -"`
	Z uint16
}

type tg53 struct {
	A uint16
	F uint16 `bin:"- optional opt"`
	B uint16
	P *uint32 `bin:"- optional opt"`
	Z uint16
}

type tg54 struct {
	A uint16
	F uint16 `bin:"- opt optional"`
	B uint16
	P *uint32 `bin:"- opt optional"`
	Z uint16
}

type tg55 struct {
	A uint16
	F uint16 `bin:"opt optional -"`
	B uint16
	P *uint32 `bin:"opt optional -"`
	Z uint16
}

type tg56 struct {
	A uint16
	F uint16 `bin:"opt - optional"`
	B uint16
	P *uint32 `bin:"opt - optional"`
	Z uint16
}

type tg57 struct {
	A uint16
	F uint16 `bin:"optional - _"`
	B uint16
	P *uint32 `bin:"optional - _"`
	Z uint16
}

type tg58 struct {
	A uint16
	F uint16 `bin:"optional _ -"`
	B uint16
	P *uint32 `bin:"optional _ -"`
	Z uint16
}

type tg59 struct {
	A uint16
	F uint16 `bin:"- optional _"`
	B uint16
	P *uint32 `bin:"- optional _"`
	Z uint16
}

type tg60 struct {
	A uint16
	F uint16 `bin:"- _ optional"`
	B uint16
	P *uint32 `bin:"- _ optional"`
	Z uint16
}

type tg61 struct {
	A uint16
	F uint16 `bin:"_ optional -"`
	B uint16
	P *uint32 `bin:"_ optional -"`
	Z uint16
}

type tg62 struct {
	A uint16
	F uint16 `bin:"_ - optional"`
	B uint16
	P *uint32 `bin:"_ - optional"`
	Z uint16
}

type tg63 struct {
	A uint16
	F uint16 `bin:"optional skip"`
	B uint16
	P *uint32 `bin:"optional skip"`
	Z uint16
}

type tg64 struct {
	A uint16
	F uint16 `bin:"skip optional"`
	B uint16
	P *uint32 `bin:"skip optional"`
	Z uint16
}

type tg65 struct {
	A uint16
	F uint16 `bin:"optional skip bigger"`
	B uint16
	P *uint32 `bin:"optional skip bigger"`
	Z uint16
}

type tg66 struct {
	A uint16
	F uint16 `bin:"optional bigger skip"`
	B uint16
	P *uint32 `bin:"optional bigger skip"`
	Z uint16
}

type tg67 struct {
	A uint16
	F uint16 `bin:"skip optional bigger"`
	B uint16
	P *uint32 `bin:"skip optional bigger"`
	Z uint16
}

type tg68 struct {
	A uint16
	F uint16 `bin:"skip bigger optional"`
	B uint16
	P *uint32 `bin:"skip bigger optional"`
	Z uint16
}

type tg69 struct {
	A uint16
	F uint16 `bin:"bigger optional skip"`
	B uint16
	P *uint32 `bin:"bigger optional skip"`
	Z uint16
}

type tg70 struct {
	A uint16
	F uint16 `bin:"bigger skip optional"`
	B uint16
	P *uint32 `bin:"bigger skip optional"`
	Z uint16
}

type tg71 struct {
	A uint16
	F uint16 `bin:"optional skip sizeofX"`
	B uint16
	P *uint32 `bin:"optional skip sizeofX"`
	Z uint16
}

type tg72 struct {
	A uint16
	F uint16 `bin:"optional sizeofX skip"`
	B uint16
	P *uint32 `bin:"optional sizeofX skip"`
	Z uint16
}

type tg73 struct {
	A uint16
	F uint16 `bin:"skip optional sizeofX"`
	B uint16
	P *uint32 `bin:"skip optional sizeofX"`
	Z uint16
}

type tg74 struct {
	A uint16
	F uint16 `bin:"skip sizeofX optional"`
	B uint16
	P *uint32 `bin:"skip sizeofX optional"`
	Z uint16
}

type tg75 struct {
	A uint16
	F uint16 `bin:"sizeofX optional skip"`
	B uint16
	P *uint32 `bin:"sizeofX optional skip"`
	Z uint16
}

type tg76 struct {
	A uint16
	F uint16 `bin:"sizeofX skip optional"`
	B uint16
	P *uint32 `bin:"sizeofX skip optional"`
	Z uint16
}

type tg77 struct {
	A uint16
	F uint16 `bin:"option foo"`
	B uint16
	P *uint32 `bin:"option foo"`
	Z uint16
}

type tg78 struct {
	A uint16
	F uint16 `bin:"foo option"`
	B uint16
	P *uint32 `bin:"foo option"`
	Z uint16
}

type tg79 struct {
	A uint16
	F uint16 `bin:"option bigger"`
	B uint16
	P *uint32 `bin:"option bigger"`
	Z uint16
}

type tg80 struct {
	A uint16
	F uint16 `bin:"bigger option"`
	B uint16
	P *uint32 `bin:"bigger option"`
	Z uint16
}

type tg81 struct {
	A uint16
	F uint16 `bin:"option opt"`
	B uint16
	P *uint32 `bin:"option opt"`
	Z uint16
}

type tg82 struct {
	A uint16
	F uint16 `bin:"opt option"`
	B uint16
	P *uint32 `bin:"opt option"`
	Z uint16
}

type tg83 struct {
	A uint16
	F uint16 `bin:"option Big"`
	B uint16
	P *uint32 `bin:"option Big"`
	Z uint16
}

type tg84 struct {
	A uint16
	F uint16 `bin:"Big option"`
	B uint16
	P *uint32 `bin:"Big option"`
	Z uint16
}

type tg85 struct {
	A uint16
	F uint16 `bin:"option sizeofX"`
	B uint16
	P *uint32 `bin:"option sizeofX"`
	Z uint16
}

type tg86 struct {
	A uint16
	F uint16 `bin:"sizeofX option"`
	B uint16
	P *uint32 `bin:"sizeofX option"`
	Z uint16
}

type tg87 struct {
	A uint16
	F uint16 `bin:"option _"`
	B uint16
	P *uint32 `bin:"option _"`
	Z uint16
}

type tg88 struct {
	A uint16
	F uint16 `bin:"_ option"`
	B uint16
	P *uint32 `bin:"_ option"`
	Z uint16
}

type tg89 struct {
	A uint16
	F uint16 `bin:"option OPTIONAL"`
	B uint16
	P *uint32 `bin:"option OPTIONAL"`
	Z uint16
}

type tg90 struct {
	A uint16
	F uint16 `bin:"OPTIONAL option"`
	B uint16
	P *uint32 `bin:"OPTIONAL option"`
	Z uint16
}

type tg91 struct {
	A uint16
	F uint16 `bin:"option -"`
	B uint16
	P *uint32 `bin:"option -"`
	Z uint16
}

type tg92 struct {
	A uint16
	F uint16 `bin:"- option"`
	B uint16
	P *uint32 `bin:"- option"`
	Z uint16
}

type tg93 struct {
	A uint16
	F uint16 `bin:"option - bigger"`
	B uint16
	P *uint32 `bin:"option - bigger"`
	Z uint16
}

type tg94 struct {
	A uint16
	F uint16 `bin:"option bigger -"`
	B uint16
	P *uint32 `bin:"option bigger -"`
	Z uint16
}

type tg95 struct {
	A uint16
	F uint16 `bin:"- option bigger"`
	B uint16
	P *uint32 `bin:"- option bigger"`
	Z uint16
}

type tg96 struct {
	A uint16
	F uint16 `bin:"- bigger option"`
	B uint16
	P *uint32 `bin:"- bigger option"`
	Z uint16
}

type tg97 struct {
	A uint16
	F uint16 `bin:"bigger option -"`
	B uint16
	P *uint32 `bin:"bigger option -"`
	Z uint16
}

type tg98 struct {
	A uint16
	F uint16 `bin:"bigger - option"`
	B uint16
	P *uint32 `bin:"bigger - option"`
	Z uint16
}

type tg99 struct {
	A uint16
	F uint16 `bin:"option - sizeofX"`
	B uint16
	P *uint32 `bin:"option - sizeofX"`
	Z uint16
}

type tg100 struct {
	A uint16
	F uint16 `bin:"option sizeofX -"`
	B uint16
	P *uint32 `bin:"option sizeofX -"`
	Z uint16
}

type tg101 struct {
	A uint16
	F uint16 `bin:"- option sizeofX"`
	B uint16
	P *uint32 `bin:"- option sizeofX"`
	Z uint16
}

type tg102 struct {
	A uint16
	F uint16 `bin:"- sizeofX option"`
	B uint16
	P *uint32 `bin:"- sizeofX option"`
	Z uint16
}

type tg103 struct {
	A uint16
	F uint16 `bin:"sizeofX option -"`
	B uint16
	P *uint32 `bin:"sizeofX option -"`
	Z uint16
}

type tg104 struct {
	A uint16
	F uint16 `bin:"sizeofX - option"`
	B uint16
	P *uint32 `bin:"sizeofX - option"`
	Z uint16
}

type tg105 struct {
	A uint16
	F uint16 `bin:"option skip"`
	B uint16
	P *uint32 `bin:"option skip"`
	Z uint16
}

type tg106 struct {
	A uint16
	F uint16 `bin:"skip option"`
	B uint16
	P *uint32 `bin:"skip option"`
	Z uint16
}

type tg107 struct {
	A uint16
	F uint16 `bin:"option skip foo"`
	B uint16
	P *uint32 `bin:"option skip foo"`
	Z uint16
}

type tg108 struct {
	A uint16
	F uint16 `bin:"option foo skip"`
	B uint16
	P *uint32 `bin:"option foo skip"`
	Z uint16
}

type tg109 struct {
	A uint16
	F uint16 `bin:"skip option foo"`
	B uint16
	P *uint32 `bin:"skip option foo"`
	Z uint16
}

type tg110 struct {
	A uint16
	F uint16 `bin:"skip foo option"`
	B uint16
	P *uint32 `bin:"skip foo option"`
	Z uint16
}

type tg111 struct {
	A uint16
	F uint16 `bin:"foo option skip"`
	B uint16
	P *uint32 `bin:"foo option skip"`
	Z uint16
}

type tg112 struct {
	A uint16
	F uint16 `bin:"foo skip option"`
	B uint16
	P *uint32 `bin:"foo skip option"`
	Z uint16
}

type tg113 struct {
	A uint16
	F uint16 `bin:"option skip Big"`
	B uint16
	P *uint32 `bin:"option skip Big"`
	Z uint16
}

type tg114 struct {
	A uint16
	F uint16 `bin:"option Big skip"`
	B uint16
	P *uint32 `bin:"option Big skip"`
	Z uint16
}

type tg115 struct {
	A uint16
	F uint16 `bin:"skip option Big"`
	B uint16
	P *uint32 `bin:"skip option Big"`
	Z uint16
}

type tg116 struct {
	A uint16
	F uint16 `bin:"skip Big option"`
	B uint16
	P *uint32 `bin:"skip Big option"`
	Z uint16
}

type tg117 struct {
	A uint16
	F uint16 `bin:"Big option skip"`
	B uint16
	P *uint32 `bin:"Big option skip"`
	Z uint16
}

type tg118 struct {
	A uint16
	F uint16 `bin:"Big skip option"`
	B uint16
	P *uint32 `bin:"Big skip option"`
	Z uint16
}

type tg119 struct {
	A uint16
	F uint16 `bin:"option skip OPTIONAL"`
	B uint16
	P *uint32 `bin:"option skip OPTIONAL"`
	Z uint16
}

type tg120 struct {
	A uint16
	F uint16 `bin:"option OPTIONAL skip"`
	B uint16
	P *uint32 `bin:"option OPTIONAL skip"`
	Z uint16
}

type tg121 struct {
	A uint16
	F uint16 `bin:"skip option OPTIONAL"`
	B uint16
	P *uint32 `bin:"skip option OPTIONAL"`
	Z uint16
}

type tg122 struct {
	A uint16
	F uint16 `bin:"skip OPTIONAL option"`
	B uint16
	P *uint32 `bin:"skip OPTIONAL option"`
	Z uint16
}

type tg123 struct {
	A uint16
	F uint16 `bin:"OPTIONAL option skip"`
	B uint16
	P *uint32 `bin:"OPTIONAL option skip"`
	Z uint16
}

type tg124 struct {
	A uint16
	F uint16 `bin:"OPTIONAL skip option"`
	B uint16
	P *uint32 `bin:"OPTIONAL skip option"`
	Z uint16
}

type tg125 struct {
	A uint16
	F uint16 `bin:"coption foo"`
	B uint16
	P *uint32 `bin:"coption foo"`
	Z uint16
}

type tg126 struct {
	A uint16
	F uint16 `bin:"foo coption"`
	B uint16
	P *uint32 `bin:"foo coption"`
	Z uint16
}

type tg127 struct {
	A uint16
	F uint16 `bin:"coption bigger"`
	B uint16
	P *uint32 `bin:"coption bigger"`
	Z uint16
}

type tg128 struct {
	A uint16
	F uint16 `bin:"bigger coption"`
	B uint16
	P *uint32 `bin:"bigger coption"`
	Z uint16
}

type tg129 struct {
	A uint16
	F uint16 `bin:"coption opt"`
	B uint16
	P *uint32 `bin:"coption opt"`
	Z uint16
}

type tg130 struct {
	A uint16
	F uint16 `bin:"opt coption"`
	B uint16
	P *uint32 `bin:"opt coption"`
	Z uint16
}

type tg131 struct {
	A uint16
	F uint16 `bin:"coption Big"`
	B uint16
	P *uint32 `bin:"coption Big"`
	Z uint16
}

type tg132 struct {
	A uint16
	F uint16 `bin:"Big coption"`
	B uint16
	P *uint32 `bin:"Big coption"`
	Z uint16
}

type tg133 struct {
	A uint16
	F uint16 `bin:"coption sizeofX"`
	B uint16
	P *uint32 `bin:"coption sizeofX"`
	Z uint16
}

type tg134 struct {
	A uint16
	F uint16 `bin:"sizeofX coption"`
	B uint16
	P *uint32 `bin:"sizeofX coption"`
	Z uint16
}

type tg135 struct {
	A uint16
	F uint16 `bin:"coption _"`
	B uint16
	P *uint32 `bin:"coption _"`
	Z uint16
}

type tg136 struct {
	A uint16
	F uint16 `bin:"_ coption"`
	B uint16
	P *uint32 `bin:"_ coption"`
	Z uint16
}

type tg137 struct {
	A uint16
	F uint16 `bin:"coption OPTIONAL"`
	B uint16
	P *uint32 `bin:"coption OPTIONAL"`
	Z uint16
}

type tg138 struct {
	A uint16
	F uint16 `bin:"OPTIONAL coption"`
	B uint16
	P *uint32 `bin:"OPTIONAL coption"`
	Z uint16
}

type tg139 struct {
	A uint16
	F uint16 `bin:"coption -"`
	B uint16
	P *uint32 `bin:"coption -"`
	Z uint16
}

type tg140 struct {
	A uint16
	F uint16 `bin:"- coption"`
	B uint16
	P *uint32 `bin:"- coption"`
	Z uint16
}

type tg141 struct {
	A uint16
	F uint16 `bin:"coption - foo"`
	B uint16
	P *uint32 `bin:"coption - foo"`
	Z uint16
}

type tg142 struct {
	A uint16
	F uint16 `bin:"coption foo -"`
	B uint16
	P *uint32 `bin:"coption foo -"`
	Z uint16
}

type tg143 struct {
	A uint16
	F uint16 `bin:"- coption foo"`
	B uint16
	P *uint32 `bin:"- coption foo"`
	Z uint16
}

type tg144 struct {
	A uint16
	F uint16 `bin:"- foo coption"`
	B uint16
	P *uint32 `bin:"- foo coption"`
	Z uint16
}

type tg145 struct {
	A uint16
	F uint16 `bin:"foo coption -"`
	B uint16
	P *uint32 `bin:"foo coption -"`
	Z uint16
}

type tg146 struct {
	A uint16
	F uint16 `bin:"foo - coption"`
	B uint16
	P *uint32 `bin:"foo - coption"`
	Z uint16
}

type tg147 struct {
	A uint16
	F uint16 `bin:"coption - Big"`
	B uint16
	P *uint32 `bin:"coption - Big"`
	Z uint16
}

type tg148 struct {
	A uint16
	F uint16 `bin:"coption Big -"`
	B uint16
	P *uint32 `bin:"coption Big -"`
	Z uint16
}

type tg149 struct {
	A uint16
	F uint16 `bin:"- coption Big"`
	B uint16
	P *uint32 `bin:"- coption Big"`
	Z uint16
}

type tg150 struct {
	A uint16
	F uint16 `bin:"- Big coption"`
	B uint16
	P *uint32 `bin:"- Big coption"`
	Z uint16
}

type tg151 struct {
	A uint16
	F uint16 `bin:"Big coption -"`
	B uint16
	P *uint32 `bin:"Big coption -"`
	Z uint16
}

type tg152 struct {
	A uint16
	F uint16 `bin:"Big - coption"`
	B uint16
	P *uint32 `bin:"Big - coption"`
	Z uint16
}

type tg153 struct {
	A uint16
	F uint16 `bin:"coption - OPTIONAL"`
	B uint16
	P *uint32 `bin:"coption - OPTIONAL"`
	Z uint16
}

type tg154 struct {
	A uint16
	F uint16 `bin:"coption OPTIONAL -"`
	B uint16
	P *uint32 `bin:"coption OPTIONAL -"`
	Z uint16
}

type tg155 struct {
	A uint16
	F uint16 `bin:"- coption OPTIONAL"`
	B uint16
	P *uint32 `bin:"- coption OPTIONAL"`
	Z uint16
}

type tg156 struct {
	A uint16
	F uint16 `bin:"- OPTIONAL coption"`
	B uint16
	P *uint32 `bin:"- OPTIONAL coption"`
	Z uint16
}

type tg157 struct {
	A uint16
	F uint16 `bin:"OPTIONAL coption -"`
	B uint16
	P *uint32 `bin:"OPTIONAL coption -"`
	Z uint16
}

type tg158 struct {
	A uint16
	F uint16 `bin:"OPTIONAL - coption"`
	B uint16
	P *uint32 `bin:"OPTIONAL - coption"`
	Z uint16
}

type tg159 struct {
	A uint16
	F uint16 `bin:"coption skip"`
	B uint16
	P *uint32 `bin:"coption skip"`
	Z uint16
}

type tg160 struct {
	A uint16
	F uint16 `bin:"skip coption"`
	B uint16
	P *uint32 `bin:"skip coption"`
	Z uint16
}

type tg161 struct {
	A uint16
	F uint16 `bin:"coption skip opt"`
	B uint16
	P *uint32 `bin:"coption skip opt"`
	Z uint16
}

type tg162 struct {
	A uint16
	F uint16 `bin:"coption opt skip"`
	B uint16
	P *uint32 `bin:"coption opt skip"`
	Z uint16
}

type tg163 struct {
	A uint16
	F uint16 `bin:"skip coption opt"`
	B uint16
	P *uint32 `bin:"skip coption opt"`
	Z uint16
}

type tg164 struct {
	A uint16
	F uint16 `bin:"skip opt coption"`
	B uint16
	P *uint32 `bin:"skip opt coption"`
	Z uint16
}

type tg165 struct {
	A uint16
	F uint16 `bin:"opt coption skip"`
	B uint16
	P *uint32 `bin:"opt coption skip"`
	Z uint16
}

type tg166 struct {
	A uint16
	F uint16 `bin:"opt skip coption"`
	B uint16
	P *uint32 `bin:"opt skip coption"`
	Z uint16
}

type tg167 struct {
	A uint16
	F uint16 `bin:"coption skip _"`
	B uint16
	P *uint32 `bin:"coption skip _"`
	Z uint16
}

type tg168 struct {
	A uint16
	F uint16 `bin:"coption _ skip"`
	B uint16
	P *uint32 `bin:"coption _ skip"`
	Z uint16
}

type tg169 struct {
	A uint16
	F uint16 `bin:"skip coption _"`
	B uint16
	P *uint32 `bin:"skip coption _"`
	Z uint16
}

type tg170 struct {
	A uint16
	F uint16 `bin:"skip _ coption"`
	B uint16
	P *uint32 `bin:"skip _ coption"`
	Z uint16
}

type tg171 struct {
	A uint16
	F uint16 `bin:"_ coption skip"`
	B uint16
	P *uint32 `bin:"_ coption skip"`
	Z uint16
}

type tg172 struct {
	A uint16
	F uint16 `bin:"_ skip coption"`
	B uint16
	P *uint32 `bin:"_ skip coption"`
	Z uint16
}

type tg173 struct {
	A uint16
	F uint16 `bin:"big foo"`
	B uint16
	P *uint32 `bin:"big foo"`
	Z uint16
}

type tg174 struct {
	A uint16
	F uint16 `bin:"foo big"`
	B uint16
	P *uint32 `bin:"foo big"`
	Z uint16
}

type tg175 struct {
	A uint16
	F uint16 `bin:"big bigger"`
	B uint16
	P *uint32 `bin:"big bigger"`
	Z uint16
}

type tg176 struct {
	A uint16
	F uint16 `bin:"bigger big"`
	B uint16
	P *uint32 `bin:"bigger big"`
	Z uint16
}

type tg177 struct {
	A uint16
	F uint16 `bin:"big opt"`
	B uint16
	P *uint32 `bin:"big opt"`
	Z uint16
}

type tg178 struct {
	A uint16
	F uint16 `bin:"opt big"`
	B uint16
	P *uint32 `bin:"opt big"`
	Z uint16
}

type tg179 struct {
	A uint16
	F uint16 `bin:"big Big"`
	B uint16
	P *uint32 `bin:"big Big"`
	Z uint16
}

type tg180 struct {
	A uint16
	F uint16 `bin:"Big big"`
	B uint16
	P *uint32 `bin:"Big big"`
	Z uint16
}

type tg181 struct {
	A uint16
	F uint16 `bin:"big sizeofX"`
	B uint16
	P *uint32 `bin:"big sizeofX"`
	Z uint16
}

type tg182 struct {
	A uint16
	F uint16 `bin:"sizeofX big"`
	B uint16
	P *uint32 `bin:"sizeofX big"`
	Z uint16
}

type tg183 struct {
	A uint16
	F uint16 `bin:"big _"`
	B uint16
	P *uint32 `bin:"big _"`
	Z uint16
}

type tg184 struct {
	A uint16
	F uint16 `bin:"_ big"`
	B uint16
	P *uint32 `bin:"_ big"`
	Z uint16
}

type tg185 struct {
	A uint16
	F uint16 `bin:"big OPTIONAL"`
	B uint16
	P *uint32 `bin:"big OPTIONAL"`
	Z uint16
}

type tg186 struct {
	A uint16
	F uint16 `bin:"OPTIONAL big"`
	B uint16
	P *uint32 `bin:"OPTIONAL big"`
	Z uint16
}

type tg187 struct {
	A uint16
	F uint16 `bin:"big -"`
	B uint16
	P *uint32 `bin:"big -"`
	Z uint16
}

type tg188 struct {
	A uint16
	F uint16 `bin:"- big"`
	B uint16
	P *uint32 `bin:"- big"`
	Z uint16
}

type tg189 struct {
	A uint16
	F uint16 `bin:"big - opt"`
	B uint16
	P *uint32 `bin:"big - opt"`
	Z uint16
}

type tg190 struct {
	A uint16
	F uint16 `bin:"big opt -"`
	B uint16
	P *uint32 `bin:"big opt -"`
	Z uint16
}

type tg191 struct {
	A uint16
	F uint16 `bin:"- big opt"`
	B uint16
	P *uint32 `bin:"- big opt"`
	Z uint16
}

type tg192 struct {
	A uint16
	F uint16 `bin:"- opt big"`
	B uint16
	P *uint32 `bin:"- opt big"`
	Z uint16
}

type tg193 struct {
	A uint16
	F uint16 `bin:"opt big -"`
	B uint16
	P *uint32 `bin:"opt big -"`
	Z uint16
}

type tg194 struct {
	A uint16
	F uint16 `bin:"opt - big"`
	B uint16
	P *uint32 `bin:"opt - big"`
	Z uint16
}

type tg195 struct {
	A uint16
	F uint16 `bin:"big - _"`
	B uint16
	P *uint32 `bin:"big - _"`
	Z uint16
}

type tg196 struct {
	A uint16
	F uint16 `bin:"big _ -"`
	B uint16
	P *uint32 `bin:"big _ -"`
	Z uint16
}

type tg197 struct {
	A uint16
	F uint16 `bin:"- big _"`
	B uint16
	P *uint32 `bin:"- big _"`
	Z uint16
}

type tg198 struct {
	A uint16
	F uint16 `bin:"- _ big"`
	B uint16
	P *uint32 `bin:"- _ big"`
	Z uint16
}

type tg199 struct {
	A uint16
	F uint16 `bin:"_ big -"`
	B uint16
	P *uint32 `bin:"_ big -"`
	Z uint16
}

type tg200 struct {
	A uint16
	F uint16 `bin:"_ - big"`
	B uint16
	P *uint32 `bin:"_ - big"`
	Z uint16
}

type tg201 struct {
	A uint16
	F uint16 `bin:"big skip"`
	B uint16
	P *uint32 `bin:"big skip"`
	Z uint16
}

type tg202 struct {
	A uint16
	F uint16 `bin:"skip big"`
	B uint16
	P *uint32 `bin:"skip big"`
	Z uint16
}

type tg203 struct {
	A uint16
	F uint16 `bin:"big skip bigger"`
	B uint16
	P *uint32 `bin:"big skip bigger"`
	Z uint16
}

type tg204 struct {
	A uint16
	F uint16 `bin:"big bigger skip"`
	B uint16
	P *uint32 `bin:"big bigger skip"`
	Z uint16
}

type tg205 struct {
	A uint16
	F uint16 `bin:"skip big bigger"`
	B uint16
	P *uint32 `bin:"skip big bigger"`
	Z uint16
}

type tg206 struct {
	A uint16
	F uint16 `bin:"skip bigger big"`
	B uint16
	P *uint32 `bin:"skip bigger big"`
	Z uint16
}

type tg207 struct {
	A uint16
	F uint16 `bin:"bigger big skip"`
	B uint16
	P *uint32 `bin:"bigger big skip"`
	Z uint16
}

type tg208 struct {
	A uint16
	F uint16 `bin:"bigger skip big"`
	B uint16
	P *uint32 `bin:"bigger skip big"`
	Z uint16
}

type tg209 struct {
	A uint16
	F uint16 `bin:"big skip sizeofX"`
	B uint16
	P *uint32 `bin:"big skip sizeofX"`
	Z uint16
}

type tg210 struct {
	A uint16
	F uint16 `bin:"big sizeofX skip"`
	B uint16
	P *uint32 `bin:"big sizeofX skip"`
	Z uint16
}

type tg211 struct {
	A uint16
	F uint16 `bin:"skip big sizeofX"`
	B uint16
	P *uint32 `bin:"skip big sizeofX"`
	Z uint16
}

type tg212 struct {
	A uint16
	F uint16 `bin:"skip sizeofX big"`
	B uint16
	P *uint32 `bin:"skip sizeofX big"`
	Z uint16
}

type tg213 struct {
	A uint16
	F uint16 `bin:"sizeofX big skip"`
	B uint16
	P *uint32 `bin:"sizeofX big skip"`
	Z uint16
}

type tg214 struct {
	A uint16
	F uint16 `bin:"sizeofX skip big"`
	B uint16
	P *uint32 `bin:"sizeofX skip big"`
	Z uint16
}

type tg215 struct {
	A uint16
	F uint16 `bin:"big optional"`
	B uint16
	P *uint32 `bin:"big optional"`
	Z uint16
}

type tg216 struct {
	A uint16
	F uint16 `bin:"optional big"`
	B uint16
	P *uint32 `bin:"optional big"`
	Z uint16
}

type tg217 struct {
	A uint16
	F uint16 `bin:"big optional foo"`
	B uint16
	P *uint32 `bin:"big optional foo"`
	Z uint16
}

type tg218 struct {
	A uint16
	F uint16 `bin:"big foo optional"`
	B uint16
	P *uint32 `bin:"big foo optional"`
	Z uint16
}

type tg219 struct {
	A uint16
	F uint16 `bin:"optional big foo"`
	B uint16
	P *uint32 `bin:"optional big foo"`
	Z uint16
}

type tg220 struct {
	A uint16
	F uint16 `bin:"optional foo big"`
	B uint16
	P *uint32 `bin:"optional foo big"`
	Z uint16
}

type tg221 struct {
	A uint16
	F uint16 `bin:"foo big optional"`
	B uint16
	P *uint32 `bin:"foo big optional"`
	Z uint16
}

type tg222 struct {
	A uint16
	F uint16 `bin:"foo optional big"`
	B uint16
	P *uint32 `bin:"foo optional big"`
	Z uint16
}

type tg223 struct {
	A uint16
	F uint16 `bin:"big optional Big"`
	B uint16
	P *uint32 `bin:"big optional Big"`
	Z uint16
}

type tg224 struct {
	A uint16
	F uint16 `bin:"big Big optional"`
	B uint16
	P *uint32 `bin:"big Big optional"`
	Z uint16
}

type tg225 struct {
	A uint16
	F uint16 `bin:"optional big Big"`
	B uint16
	P *uint32 `bin:"optional big Big"`
	Z uint16
}

type tg226 struct {
	A uint16
	F uint16 `bin:"optional Big big"`
	B uint16
	P *uint32 `bin:"optional Big big"`
	Z uint16
}

type tg227 struct {
	A uint16
	F uint16 `bin:"Big big optional"`
	B uint16
	P *uint32 `bin:"Big big optional"`
	Z uint16
}

type tg228 struct {
	A uint16
	F uint16 `bin:"Big optional big"`
	B uint16
	P *uint32 `bin:"Big optional big"`
	Z uint16
}

type tg229 struct {
	A uint16
	F uint16 `bin:"big optional OPTIONAL"`
	B uint16
	P *uint32 `bin:"big optional OPTIONAL"`
	Z uint16
}

type tg230 struct {
	A uint16
	F uint16 `bin:"big OPTIONAL optional"`
	B uint16
	P *uint32 `bin:"big OPTIONAL optional"`
	Z uint16
}

type tg231 struct {
	A uint16
	F uint16 `bin:"optional big OPTIONAL"`
	B uint16
	P *uint32 `bin:"optional big OPTIONAL"`
	Z uint16
}

type tg232 struct {
	A uint16
	F uint16 `bin:"optional OPTIONAL big"`
	B uint16
	P *uint32 `bin:"optional OPTIONAL big"`
	Z uint16
}

type tg233 struct {
	A uint16
	F uint16 `bin:"OPTIONAL big optional"`
	B uint16
	P *uint32 `bin:"OPTIONAL big optional"`
	Z uint16
}

type tg234 struct {
	A uint16
	F uint16 `bin:"OPTIONAL optional big"`
	B uint16
	P *uint32 `bin:"OPTIONAL optional big"`
	Z uint16
}

type tg235 struct {
	A uint16
	F uint16 `bin:"big optional -"`
	B uint16
	P *uint32 `bin:"big optional -"`
	Z uint16
}

type tg236 struct {
	A uint16
	F uint16 `bin:"big - optional"`
	B uint16
	P *uint32 `bin:"big - optional"`
	Z uint16
}

type tg237 struct {
	A uint16
	F uint16 `bin:"optional big -"`
	B uint16
	P *uint32 `bin:"optional big -"`
	Z uint16
}

type tg238 struct {
	A uint16
	F uint16 `bin:"optional - big"`
	B uint16
	P *uint32 `bin:"optional - big"`
	Z uint16
}

type tg239 struct {
	A uint16
	F uint16 `bin:"- big optional"`
	B uint16
	P *uint32 `bin:"- big optional"`
	Z uint16
}

type tg240 struct {
	A uint16
	F uint16 `bin:"- optional big"`
	B uint16
	P *uint32 `bin:"- optional big"`
	Z uint16
}

type tg241 struct {
	A uint16
	F uint16 `bin:"big optional skip"`
	B uint16
	P *uint32 `bin:"big optional skip"`
	Z uint16
}

type tg242 struct {
	A uint16
	F uint16 `bin:"big skip optional"`
	B uint16
	P *uint32 `bin:"big skip optional"`
	Z uint16
}

type tg243 struct {
	A uint16
	F uint16 `bin:"optional big skip"`
	B uint16
	P *uint32 `bin:"optional big skip"`
	Z uint16
}

type tg244 struct {
	A uint16
	F uint16 `bin:"optional skip big"`
	B uint16
	P *uint32 `bin:"optional skip big"`
	Z uint16
}

type tg245 struct {
	A uint16
	F uint16 `bin:"skip big optional"`
	B uint16
	P *uint32 `bin:"skip big optional"`
	Z uint16
}

type tg246 struct {
	A uint16
	F uint16 `bin:"skip optional big"`
	B uint16
	P *uint32 `bin:"skip optional big"`
	Z uint16
}

type tg247 struct {
	A uint16
	F uint16 `bin:"big option"`
	B uint16
	P *uint32 `bin:"big option"`
	Z uint16
}

type tg248 struct {
	A uint16
	F uint16 `bin:"option big"`
	B uint16
	P *uint32 `bin:"option big"`
	Z uint16
}

type tg249 struct {
	A uint16
	F uint16 `bin:"big option bigger"`
	B uint16
	P *uint32 `bin:"big option bigger"`
	Z uint16
}

type tg250 struct {
	A uint16
	F uint16 `bin:"big bigger option"`
	B uint16
	P *uint32 `bin:"big bigger option"`
	Z uint16
}

type tg251 struct {
	A uint16
	F uint16 `bin:"option big bigger"`
	B uint16
	P *uint32 `bin:"option big bigger"`
	Z uint16
}

type tg252 struct {
	A uint16
	F uint16 `bin:"option bigger big"`
	B uint16
	P *uint32 `bin:"option bigger big"`
	Z uint16
}

type tg253 struct {
	A uint16
	F uint16 `bin:"bigger big option"`
	B uint16
	P *uint32 `bin:"bigger big option"`
	Z uint16
}

type tg254 struct {
	A uint16
	F uint16 `bin:"bigger option big"`
	B uint16
	P *uint32 `bin:"bigger option big"`
	Z uint16
}

type tg255 struct {
	A uint16
	F uint16 `bin:"big option sizeofX"`
	B uint16
	P *uint32 `bin:"big option sizeofX"`
	Z uint16
}

type tg256 struct {
	A uint16
	F uint16 `bin:"big sizeofX option"`
	B uint16
	P *uint32 `bin:"big sizeofX option"`
	Z uint16
}

type tg257 struct {
	A uint16
	F uint16 `bin:"option big sizeofX"`
	B uint16
	P *uint32 `bin:"option big sizeofX"`
	Z uint16
}

type tg258 struct {
	A uint16
	F uint16 `bin:"option sizeofX big"`
	B uint16
	P *uint32 `bin:"option sizeofX big"`
	Z uint16
}

type tg259 struct {
	A uint16
	F uint16 `bin:"sizeofX big option"`
	B uint16
	P *uint32 `bin:"sizeofX big option"`
	Z uint16
}

type tg260 struct {
	A uint16
	F uint16 `bin:"sizeofX option big"`
	B uint16
	P *uint32 `bin:"sizeofX option big"`
	Z uint16
}

type tg261 struct {
	A uint16
	F uint16 `bin:"big option -"`
	B uint16
	P *uint32 `bin:"big option -"`
	Z uint16
}

type tg262 struct {
	A uint16
	F uint16 `bin:"big - option"`
	B uint16
	P *uint32 `bin:"big - option"`
	Z uint16
}

type tg263 struct {
	A uint16
	F uint16 `bin:"option big -"`
	B uint16
	P *uint32 `bin:"option big -"`
	Z uint16
}

type tg264 struct {
	A uint16
	F uint16 `bin:"option - big"`
	B uint16
	P *uint32 `bin:"option - big"`
	Z uint16
}

type tg265 struct {
	A uint16
	F uint16 `bin:"- big option"`
	B uint16
	P *uint32 `bin:"- big option"`
	Z uint16
}

type tg266 struct {
	A uint16
	F uint16 `bin:"- option big"`
	B uint16
	P *uint32 `bin:"- option big"`
	Z uint16
}

type tg267 struct {
	A uint16
	F uint16 `bin:"big option skip"`
	B uint16
	P *uint32 `bin:"big option skip"`
	Z uint16
}

type tg268 struct {
	A uint16
	F uint16 `bin:"big skip option"`
	B uint16
	P *uint32 `bin:"big skip option"`
	Z uint16
}

type tg269 struct {
	A uint16
	F uint16 `bin:"option big skip"`
	B uint16
	P *uint32 `bin:"option big skip"`
	Z uint16
}

type tg270 struct {
	A uint16
	F uint16 `bin:"option skip big"`
	B uint16
	P *uint32 `bin:"option skip big"`
	Z uint16
}

type tg271 struct {
	A uint16
	F uint16 `bin:"skip big option"`
	B uint16
	P *uint32 `bin:"skip big option"`
	Z uint16
}

type tg272 struct {
	A uint16
	F uint16 `bin:"skip option big"`
	B uint16
	P *uint32 `bin:"skip option big"`
	Z uint16
}

type tg273 struct {
	A uint16
	F uint16 `bin:"big coption"`
	B uint16
	P *uint32 `bin:"big coption"`
	Z uint16
}

type tg274 struct {
	A uint16
	F uint16 `bin:"coption big"`
	B uint16
	P *uint32 `bin:"coption big"`
	Z uint16
}

type tg275 struct {
	A uint16
	F uint16 `bin:"big coption opt"`
	B uint16
	P *uint32 `bin:"big coption opt"`
	Z uint16
}

type tg276 struct {
	A uint16
	F uint16 `bin:"big opt coption"`
	B uint16
	P *uint32 `bin:"big opt coption"`
	Z uint16
}

type tg277 struct {
	A uint16
	F uint16 `bin:"coption big opt"`
	B uint16
	P *uint32 `bin:"coption big opt"`
	Z uint16
}

type tg278 struct {
	A uint16
	F uint16 `bin:"coption opt big"`
	B uint16
	P *uint32 `bin:"coption opt big"`
	Z uint16
}

type tg279 struct {
	A uint16
	F uint16 `bin:"opt big coption"`
	B uint16
	P *uint32 `bin:"opt big coption"`
	Z uint16
}

type tg280 struct {
	A uint16
	F uint16 `bin:"opt coption big"`
	B uint16
	P *uint32 `bin:"opt coption big"`
	Z uint16
}

type tg281 struct {
	A uint16
	F uint16 `bin:"big coption _"`
	B uint16
	P *uint32 `bin:"big coption _"`
	Z uint16
}

type tg282 struct {
	A uint16
	F uint16 `bin:"big _ coption"`
	B uint16
	P *uint32 `bin:"big _ coption"`
	Z uint16
}

type tg283 struct {
	A uint16
	F uint16 `bin:"coption big _"`
	B uint16
	P *uint32 `bin:"coption big _"`
	Z uint16
}

type tg284 struct {
	A uint16
	F uint16 `bin:"coption _ big"`
	B uint16
	P *uint32 `bin:"coption _ big"`
	Z uint16
}

type tg285 struct {
	A uint16
	F uint16 `bin:"_ big coption"`
	B uint16
	P *uint32 `bin:"_ big coption"`
	Z uint16
}

type tg286 struct {
	A uint16
	F uint16 `bin:"_ coption big"`
	B uint16
	P *uint32 `bin:"_ coption big"`
	Z uint16
}

type tg287 struct {
	A uint16
	F uint16 `bin:"big coption -"`
	B uint16
	P *uint32 `bin:"big coption -"`
	Z uint16
}

type tg288 struct {
	A uint16
	F uint16 `bin:"big - coption"`
	B uint16
	P *uint32 `bin:"big - coption"`
	Z uint16
}

type tg289 struct {
	A uint16
	F uint16 `bin:"coption big -"`
	B uint16
	P *uint32 `bin:"coption big -"`
	Z uint16
}

type tg290 struct {
	A uint16
	F uint16 `bin:"coption - big"`
	B uint16
	P *uint32 `bin:"coption - big"`
	Z uint16
}

type tg291 struct {
	A uint16
	F uint16 `bin:"- big coption"`
	B uint16
	P *uint32 `bin:"- big coption"`
	Z uint16
}

type tg292 struct {
	A uint16
	F uint16 `bin:"- coption big"`
	B uint16
	P *uint32 `bin:"- coption big"`
	Z uint16
}

type tg293 struct {
	A uint16
	F uint16 `bin:"big coption skip"`
	B uint16
	P *uint32 `bin:"big coption skip"`
	Z uint16
}

type tg294 struct {
	A uint16
	F uint16 `bin:"big skip coption"`
	B uint16
	P *uint32 `bin:"big skip coption"`
	Z uint16
}

type tg295 struct {
	A uint16
	F uint16 `bin:"coption big skip"`
	B uint16
	P *uint32 `bin:"coption big skip"`
	Z uint16
}

type tg296 struct {
	A uint16
	F uint16 `bin:"coption skip big"`
	B uint16
	P *uint32 `bin:"coption skip big"`
	Z uint16
}

type tg297 struct {
	A uint16
	F uint16 `bin:"skip big coption"`
	B uint16
	P *uint32 `bin:"skip big coption"`
	Z uint16
}

type tg298 struct {
	A uint16
	F uint16 `bin:"skip coption big"`
	B uint16
	P *uint32 `bin:"skip coption big"`
	Z uint16
}

type tg299 struct {
	A uint16
	F uint16 `bin:"little foo"`
	B uint16
	P *uint32 `bin:"little foo"`
	Z uint16
}

type tg300 struct {
	A uint16
	F uint16 `bin:"foo little"`
	B uint16
	P *uint32 `bin:"foo little"`
	Z uint16
}

type tg301 struct {
	A uint16
	F uint16 `bin:"little bigger"`
	B uint16
	P *uint32 `bin:"little bigger"`
	Z uint16
}

type tg302 struct {
	A uint16
	F uint16 `bin:"bigger little"`
	B uint16
	P *uint32 `bin:"bigger little"`
	Z uint16
}

type tg303 struct {
	A uint16
	F uint16 `bin:"little opt"`
	B uint16
	P *uint32 `bin:"little opt"`
	Z uint16
}

type tg304 struct {
	A uint16
	F uint16 `bin:"opt little"`
	B uint16
	P *uint32 `bin:"opt little"`
	Z uint16
}

type tg305 struct {
	A uint16
	F uint16 `bin:"little Big"`
	B uint16
	P *uint32 `bin:"little Big"`
	Z uint16
}

type tg306 struct {
	A uint16
	F uint16 `bin:"Big little"`
	B uint16
	P *uint32 `bin:"Big little"`
	Z uint16
}

type tg307 struct {
	A uint16
	F uint16 `bin:"little sizeofX"`
	B uint16
	P *uint32 `bin:"little sizeofX"`
	Z uint16
}

type tg308 struct {
	A uint16
	F uint16 `bin:"sizeofX little"`
	B uint16
	P *uint32 `bin:"sizeofX little"`
	Z uint16
}

type tg309 struct {
	A uint16
	F uint16 `bin:"little _"`
	B uint16
	P *uint32 `bin:"little _"`
	Z uint16
}

type tg310 struct {
	A uint16
	F uint16 `bin:"_ little"`
	B uint16
	P *uint32 `bin:"_ little"`
	Z uint16
}

type tg311 struct {
	A uint16
	F uint16 `bin:"little OPTIONAL"`
	B uint16
	P *uint32 `bin:"little OPTIONAL"`
	Z uint16
}

type tg312 struct {
	A uint16
	F uint16 `bin:"OPTIONAL little"`
	B uint16
	P *uint32 `bin:"OPTIONAL little"`
	Z uint16
}

type tg313 struct {
	A uint16
	F uint16 `bin:"little -"`
	B uint16
	P *uint32 `bin:"little -"`
	Z uint16
}

type tg314 struct {
	A uint16
	F uint16 `bin:"- little"`
	B uint16
	P *uint32 `bin:"- little"`
	Z uint16
}

type tg315 struct {
	A uint16
	F uint16 `bin:"little - bigger"`
	B uint16
	P *uint32 `bin:"little - bigger"`
	Z uint16
}

type tg316 struct {
	A uint16
	F uint16 `bin:"little bigger -"`
	B uint16
	P *uint32 `bin:"little bigger -"`
	Z uint16
}

type tg317 struct {
	A uint16
	F uint16 `bin:"- little bigger"`
	B uint16
	P *uint32 `bin:"- little bigger"`
	Z uint16
}

type tg318 struct {
	A uint16
	F uint16 `bin:"- bigger little"`
	B uint16
	P *uint32 `bin:"- bigger little"`
	Z uint16
}

type tg319 struct {
	A uint16
	F uint16 `bin:"bigger little -"`
	B uint16
	P *uint32 `bin:"bigger little -"`
	Z uint16
}

type tg320 struct {
	A uint16
	F uint16 `bin:"bigger - little"`
	B uint16
	P *uint32 `bin:"bigger - little"`
	Z uint16
}

type tg321 struct {
	A uint16
	F uint16 `bin:"little - sizeofX"`
	B uint16
	P *uint32 `bin:"little - sizeofX"`
	Z uint16
}

type tg322 struct {
	A uint16
	F uint16 `bin:"little sizeofX -"`
	B uint16
	P *uint32 `bin:"little sizeofX -"`
	Z uint16
}

type tg323 struct {
	A uint16
	F uint16 `bin:"- little sizeofX"`
	B uint16
	P *uint32 `bin:"- little sizeofX"`
	Z uint16
}

type tg324 struct {
	A uint16
	F uint16 `bin:"- sizeofX little"`
	B uint16
	P *uint32 `bin:"- sizeofX little"`
	Z uint16
}

type tg325 struct {
	A uint16
	F uint16 `bin:"sizeofX little -"`
	B uint16
	P *uint32 `bin:"sizeofX little -"`
	Z uint16
}

type tg326 struct {
	A uint16
	F uint16 `bin:"sizeofX - little"`
	B uint16
	P *uint32 `bin:"sizeofX - little"`
	Z uint16
}

type tg327 struct {
	A uint16
	F uint16 `bin:"little skip"`
	B uint16
	P *uint32 `bin:"little skip"`
	Z uint16
}

type tg328 struct {
	A uint16
	F uint16 `bin:"skip little"`
	B uint16
	P *uint32 `bin:"skip little"`
	Z uint16
}

type tg329 struct {
	A uint16
	F uint16 `bin:"little skip foo"`
	B uint16
	P *uint32 `bin:"little skip foo"`
	Z uint16
}

type tg330 struct {
	A uint16
	F uint16 `bin:"little foo skip"`
	B uint16
	P *uint32 `bin:"little foo skip"`
	Z uint16
}

type tg331 struct {
	A uint16
	F uint16 `bin:"skip little foo"`
	B uint16
	P *uint32 `bin:"skip little foo"`
	Z uint16
}

type tg332 struct {
	A uint16
	F uint16 `bin:"skip foo little"`
	B uint16
	P *uint32 `bin:"skip foo little"`
	Z uint16
}

type tg333 struct {
	A uint16
	F uint16 `bin:"foo little skip"`
	B uint16
	P *uint32 `bin:"foo little skip"`
	Z uint16
}

type tg334 struct {
	A uint16
	F uint16 `bin:"foo skip little"`
	B uint16
	P *uint32 `bin:"foo skip little"`
	Z uint16
}

type tg335 struct {
	A uint16
	F uint16 `bin:"little skip Big"`
	B uint16
	P *uint32 `bin:"little skip Big"`
	Z uint16
}

type tg336 struct {
	A uint16
	F uint16 `bin:"little Big skip"`
	B uint16
	P *uint32 `bin:"little Big skip"`
	Z uint16
}

type tg337 struct {
	A uint16
	F uint16 `bin:"skip little Big"`
	B uint16
	P *uint32 `bin:"skip little Big"`
	Z uint16
}

type tg338 struct {
	A uint16
	F uint16 `bin:"skip Big little"`
	B uint16
	P *uint32 `bin:"skip Big little"`
	Z uint16
}

type tg339 struct {
	A uint16
	F uint16 `bin:"Big little skip"`
	B uint16
	P *uint32 `bin:"Big little skip"`
	Z uint16
}

type tg340 struct {
	A uint16
	F uint16 `bin:"Big skip little"`
	B uint16
	P *uint32 `bin:"Big skip little"`
	Z uint16
}

type tg341 struct {
	A uint16
	F uint16 `bin:"little skip OPTIONAL"`
	B uint16
	P *uint32 `bin:"little skip OPTIONAL"`
	Z uint16
}

type tg342 struct {
	A uint16
	F uint16 `bin:"little OPTIONAL skip"`
	B uint16
	P *uint32 `bin:"little OPTIONAL skip"`
	Z uint16
}

type tg343 struct {
	A uint16
	F uint16 `bin:"skip little OPTIONAL"`
	B uint16
	P *uint32 `bin:"skip little OPTIONAL"`
	Z uint16
}

type tg344 struct {
	A uint16
	F uint16 `bin:"skip OPTIONAL little"`
	B uint16
	P *uint32 `bin:"skip OPTIONAL little"`
	Z uint16
}

type tg345 struct {
	A uint16
	F uint16 `bin:"OPTIONAL little skip"`
	B uint16
	P *uint32 `bin:"OPTIONAL little skip"`
	Z uint16
}

type tg346 struct {
	A uint16
	F uint16 `bin:"OPTIONAL skip little"`
	B uint16
	P *uint32 `bin:"OPTIONAL skip little"`
	Z uint16
}

type tg347 struct {
	A uint16
	F uint16 `bin:"little optional"`
	B uint16
	P *uint32 `bin:"little optional"`
	Z uint16
}

type tg348 struct {
	A uint16
	F uint16 `bin:"optional little"`
	B uint16
	P *uint32 `bin:"optional little"`
	Z uint16
}

type tg349 struct {
	A uint16
	F uint16 `bin:"little optional opt"`
	B uint16
	P *uint32 `bin:"little optional opt"`
	Z uint16
}

type tg350 struct {
	A uint16
	F uint16 `bin:"little opt optional"`
	B uint16
	P *uint32 `bin:"little opt optional"`
	Z uint16
}

type tg351 struct {
	A uint16
	F uint16 `bin:"optional little opt"`
	B uint16
	P *uint32 `bin:"optional little opt"`
	Z uint16
}

type tg352 struct {
	A uint16
	F uint16 `bin:"optional opt little"`
	B uint16
	P *uint32 `bin:"optional opt little"`
	Z uint16
}

type tg353 struct {
	A uint16
	F uint16 `bin:"opt little optional"`
	B uint16
	P *uint32 `bin:"opt little optional"`
	Z uint16
}

type tg354 struct {
	A uint16
	F uint16 `bin:"opt optional little"`
	B uint16
	P *uint32 `bin:"opt optional little"`
	Z uint16
}

type tg355 struct {
	A uint16
	F uint16 `bin:"little optional _"`
	B uint16
	P *uint32 `bin:"little optional _"`
	Z uint16
}

type tg356 struct {
	A uint16
	F uint16 `bin:"little _ optional"`
	B uint16
	P *uint32 `bin:"little _ optional"`
	Z uint16
}

type tg357 struct {
	A uint16
	F uint16 `bin:"optional little _"`
	B uint16
	P *uint32 `bin:"optional little _"`
	Z uint16
}

type tg358 struct {
	A uint16
	F uint16 `bin:"optional _ little"`
	B uint16
	P *uint32 `bin:"optional _ little"`
	Z uint16
}

type tg359 struct {
	A uint16
	F uint16 `bin:"_ little optional"`
	B uint16
	P *uint32 `bin:"_ little optional"`
	Z uint16
}

type tg360 struct {
	A uint16
	F uint16 `bin:"_ optional little"`
	B uint16
	P *uint32 `bin:"_ optional little"`
	Z uint16
}

type tg361 struct {
	A uint16
	F uint16 `bin:"little optional -"`
	B uint16
	P *uint32 `bin:"little optional -"`
	Z uint16
}

type tg362 struct {
	A uint16
	F uint16 `bin:"little - optional"`
	B uint16
	P *uint32 `bin:"little - optional"`
	Z uint16
}

type tg363 struct {
	A uint16
	F uint16 `bin:"optional little -"`
	B uint16
	P *uint32 `bin:"optional little -"`
	Z uint16
}

type tg364 struct {
	A uint16
	F uint16 `bin:"optional - little"`
	B uint16
	P *uint32 `bin:"optional - little"`
	Z uint16
}

type tg365 struct {
	A uint16
	F uint16 `bin:"- little optional"`
	B uint16
	P *uint32 `bin:"- little optional"`
	Z uint16
}

type tg366 struct {
	A uint16
	F uint16 `bin:"- optional little"`
	B uint16
	P *uint32 `bin:"- optional little"`
	Z uint16
}

type tg367 struct {
	A uint16
	F uint16 `bin:"little optional skip"`
	B uint16
	P *uint32 `bin:"little optional skip"`
	Z uint16
}

type tg368 struct {
	A uint16
	F uint16 `bin:"little skip optional"`
	B uint16
	P *uint32 `bin:"little skip optional"`
	Z uint16
}

type tg369 struct {
	A uint16
	F uint16 `bin:"optional little skip"`
	B uint16
	P *uint32 `bin:"optional little skip"`
	Z uint16
}

type tg370 struct {
	A uint16
	F uint16 `bin:"optional skip little"`
	B uint16
	P *uint32 `bin:"optional skip little"`
	Z uint16
}

type tg371 struct {
	A uint16
	F uint16 `bin:"skip little optional"`
	B uint16
	P *uint32 `bin:"skip little optional"`
	Z uint16
}

type tg372 struct {
	A uint16
	F uint16 `bin:"skip optional little"`
	B uint16
	P *uint32 `bin:"skip optional little"`
	Z uint16
}

type tg373 struct {
	A uint16
	F uint16 `bin:"little option"`
	B uint16
	P *uint32 `bin:"little option"`
	Z uint16
}

type tg374 struct {
	A uint16
	F uint16 `bin:"option little"`
	B uint16
	P *uint32 `bin:"option little"`
	Z uint16
}

type tg375 struct {
	A uint16
	F uint16 `bin:"little option foo"`
	B uint16
	P *uint32 `bin:"little option foo"`
	Z uint16
}

type tg376 struct {
	A uint16
	F uint16 `bin:"little foo option"`
	B uint16
	P *uint32 `bin:"little foo option"`
	Z uint16
}

type tg377 struct {
	A uint16
	F uint16 `bin:"option little foo"`
	B uint16
	P *uint32 `bin:"option little foo"`
	Z uint16
}

type tg378 struct {
	A uint16
	F uint16 `bin:"option foo little"`
	B uint16
	P *uint32 `bin:"option foo little"`
	Z uint16
}

type tg379 struct {
	A uint16
	F uint16 `bin:"foo little option"`
	B uint16
	P *uint32 `bin:"foo little option"`
	Z uint16
}

type tg380 struct {
	A uint16
	F uint16 `bin:"foo option little"`
	B uint16
	P *uint32 `bin:"foo option little"`
	Z uint16
}

type tg381 struct {
	A uint16
	F uint16 `bin:"little option Big"`
	B uint16
	P *uint32 `bin:"little option Big"`
	Z uint16
}

type tg382 struct {
	A uint16
	F uint16 `bin:"little Big option"`
	B uint16
	P *uint32 `bin:"little Big option"`
	Z uint16
}

type tg383 struct {
	A uint16
	F uint16 `bin:"option little Big"`
	B uint16
	P *uint32 `bin:"option little Big"`
	Z uint16
}

type tg384 struct {
	A uint16
	F uint16 `bin:"option Big little"`
	B uint16
	P *uint32 `bin:"option Big little"`
	Z uint16
}

type tg385 struct {
	A uint16
	F uint16 `bin:"Big little option"`
	B uint16
	P *uint32 `bin:"Big little option"`
	Z uint16
}

type tg386 struct {
	A uint16
	F uint16 `bin:"Big option little"`
	B uint16
	P *uint32 `bin:"Big option little"`
	Z uint16
}

type tg387 struct {
	A uint16
	F uint16 `bin:"little option OPTIONAL"`
	B uint16
	P *uint32 `bin:"little option OPTIONAL"`
	Z uint16
}

type tg388 struct {
	A uint16
	F uint16 `bin:"little OPTIONAL option"`
	B uint16
	P *uint32 `bin:"little OPTIONAL option"`
	Z uint16
}

type tg389 struct {
	A uint16
	F uint16 `bin:"option little OPTIONAL"`
	B uint16
	P *uint32 `bin:"option little OPTIONAL"`
	Z uint16
}

type tg390 struct {
	A uint16
	F uint16 `bin:"option OPTIONAL little"`
	B uint16
	P *uint32 `bin:"option OPTIONAL little"`
	Z uint16
}

type tg391 struct {
	A uint16
	F uint16 `bin:"OPTIONAL little option"`
	B uint16
	P *uint32 `bin:"OPTIONAL little option"`
	Z uint16
}

type tg392 struct {
	A uint16
	F uint16 `bin:"OPTIONAL option little"`
	B uint16
	P *uint32 `bin:"OPTIONAL option little"`
	Z uint16
}

type tg393 struct {
	A uint16
	F uint16 `bin:"little option -"`
	B uint16
	P *uint32 `bin:"little option -"`
	Z uint16
}

type tg394 struct {
	A uint16
	F uint16 `bin:"little - option"`
	B uint16
	P *uint32 `bin:"little - option"`
	Z uint16
}

type tg395 struct {
	A uint16
	F uint16 `bin:"option little -"`
	B uint16
	P *uint32 `bin:"option little -"`
	Z uint16
}

type tg396 struct {
	A uint16
	F uint16 `bin:"option - little"`
	B uint16
	P *uint32 `bin:"option - little"`
	Z uint16
}

type tg397 struct {
	A uint16
	F uint16 `bin:"- little option"`
	B uint16
	P *uint32 `bin:"- little option"`
	Z uint16
}

type tg398 struct {
	A uint16
	F uint16 `bin:"- option little"`
	B uint16
	P *uint32 `bin:"- option little"`
	Z uint16
}

type tg399 struct {
	A uint16
	F uint16 `bin:"little option skip"`
	B uint16
	P *uint32 `bin:"little option skip"`
	Z uint16
}

type tg400 struct {
	A uint16
	F uint16 `bin:"little skip option"`
	B uint16
	P *uint32 `bin:"little skip option"`
	Z uint16
}

type tg401 struct {
	A uint16
	F uint16 `bin:"option little skip"`
	B uint16
	P *uint32 `bin:"option little skip"`
	Z uint16
}

type tg402 struct {
	A uint16
	F uint16 `bin:"option skip little"`
	B uint16
	P *uint32 `bin:"option skip little"`
	Z uint16
}

type tg403 struct {
	A uint16
	F uint16 `bin:"skip little option"`
	B uint16
	P *uint32 `bin:"skip little option"`
	Z uint16
}

type tg404 struct {
	A uint16
	F uint16 `bin:"skip option little"`
	B uint16
	P *uint32 `bin:"skip option little"`
	Z uint16
}

type tg405 struct {
	A uint16
	F uint16 `bin:"little coption"`
	B uint16
	P *uint32 `bin:"little coption"`
	Z uint16
}

type tg406 struct {
	A uint16
	F uint16 `bin:"coption little"`
	B uint16
	P *uint32 `bin:"coption little"`
	Z uint16
}

type tg407 struct {
	A uint16
	F uint16 `bin:"little coption bigger"`
	B uint16
	P *uint32 `bin:"little coption bigger"`
	Z uint16
}

type tg408 struct {
	A uint16
	F uint16 `bin:"little bigger coption"`
	B uint16
	P *uint32 `bin:"little bigger coption"`
	Z uint16
}

type tg409 struct {
	A uint16
	F uint16 `bin:"coption little bigger"`
	B uint16
	P *uint32 `bin:"coption little bigger"`
	Z uint16
}

type tg410 struct {
	A uint16
	F uint16 `bin:"coption bigger little"`
	B uint16
	P *uint32 `bin:"coption bigger little"`
	Z uint16
}

type tg411 struct {
	A uint16
	F uint16 `bin:"bigger little coption"`
	B uint16
	P *uint32 `bin:"bigger little coption"`
	Z uint16
}

type tg412 struct {
	A uint16
	F uint16 `bin:"bigger coption little"`
	B uint16
	P *uint32 `bin:"bigger coption little"`
	Z uint16
}

type tg413 struct {
	A uint16
	F uint16 `bin:"little coption sizeofX"`
	B uint16
	P *uint32 `bin:"little coption sizeofX"`
	Z uint16
}

type tg414 struct {
	A uint16
	F uint16 `bin:"little sizeofX coption"`
	B uint16
	P *uint32 `bin:"little sizeofX coption"`
	Z uint16
}

type tg415 struct {
	A uint16
	F uint16 `bin:"coption little sizeofX"`
	B uint16
	P *uint32 `bin:"coption little sizeofX"`
	Z uint16
}

type tg416 struct {
	A uint16
	F uint16 `bin:"coption sizeofX little"`
	B uint16
	P *uint32 `bin:"coption sizeofX little"`
	Z uint16
}

type tg417 struct {
	A uint16
	F uint16 `bin:"sizeofX little coption"`
	B uint16
	P *uint32 `bin:"sizeofX little coption"`
	Z uint16
}

type tg418 struct {
	A uint16
	F uint16 `bin:"sizeofX coption little"`
	B uint16
	P *uint32 `bin:"sizeofX coption little"`
	Z uint16
}

type tg419 struct {
	A uint16
	F uint16 `bin:"little coption -"`
	B uint16
	P *uint32 `bin:"little coption -"`
	Z uint16
}

type tg420 struct {
	A uint16
	F uint16 `bin:"little - coption"`
	B uint16
	P *uint32 `bin:"little - coption"`
	Z uint16
}

type tg421 struct {
	A uint16
	F uint16 `bin:"coption little -"`
	B uint16
	P *uint32 `bin:"coption little -"`
	Z uint16
}

type tg422 struct {
	A uint16
	F uint16 `bin:"coption - little"`
	B uint16
	P *uint32 `bin:"coption - little"`
	Z uint16
}

type tg423 struct {
	A uint16
	F uint16 `bin:"- little coption"`
	B uint16
	P *uint32 `bin:"- little coption"`
	Z uint16
}

type tg424 struct {
	A uint16
	F uint16 `bin:"- coption little"`
	B uint16
	P *uint32 `bin:"- coption little"`
	Z uint16
}

type tg425 struct {
	A uint16
	F uint16 `bin:"little coption skip"`
	B uint16
	P *uint32 `bin:"little coption skip"`
	Z uint16
}

type tg426 struct {
	A uint16
	F uint16 `bin:"little skip coption"`
	B uint16
	P *uint32 `bin:"little skip coption"`
	Z uint16
}

type tg427 struct {
	A uint16
	F uint16 `bin:"coption little skip"`
	B uint16
	P *uint32 `bin:"coption little skip"`
	Z uint16
}

type tg428 struct {
	A uint16
	F uint16 `bin:"coption skip little"`
	B uint16
	P *uint32 `bin:"coption skip little"`
	Z uint16
}

type tg429 struct {
	A uint16
	F uint16 `bin:"skip little coption"`
	B uint16
	P *uint32 `bin:"skip little coption"`
	Z uint16
}

type tg430 struct {
	A uint16
	F uint16 `bin:"skip coption little"`
	B uint16
	P *uint32 `bin:"skip coption little"`
	Z uint16
}

type tg431 struct {
	A uint16
	F uint16 `json:"x" bin:"big"`
	B uint16
	P *uint32 `json:"x" bin:"big"`
	Z uint16
}

type tg432 struct {
	A uint16
	F uint16 `bin:"big" json:"optional"`
	B uint16
	P *uint32 `bin:"big" json:"optional"`
	Z uint16
}

type tg433 struct {
	A uint16
	F uint16 `json:"big,omitempty"`
	B uint16
	P *uint32 `json:"big,omitempty"`
	Z uint16
}

type tg434 struct {
	A uint16
	F uint16 `bin:"big" borsh_skip:"true"`
	B uint16
	P *uint32 `bin:"big" borsh_skip:"true"`
	Z uint16
}

type tg435 struct {
	A uint16
	F uint16 `borsh_skip:"true"`
	B uint16
	P *uint32 `borsh_skip:"true"`
	Z uint16
}

type tg436 struct {
	A uint16
	F uint16 `borsh_skip:"false" bin:"optional"`
	B uint16
	P *uint32 `borsh_skip:"false" bin:"optional"`
	Z uint16
}

type tg437 struct {
	A uint16
	F uint16 `bin:" big"`
	B uint16
	P *uint32 `bin:" big"`
	Z uint16
}

type tg438 struct {
	A uint16
	F uint16 `bin:"big "`
	B uint16
	P *uint32 `bin:"big "`
	Z uint16
}

type tg439 struct {
	A uint16
	F uint16 `bin:"big  optional"`
	B uint16
	P *uint32 `bin:"big  optional"`
	Z uint16
}

type tg440 struct {
	A uint16
	F uint16 `bin:"  optional   big "`
	B uint16
	P *uint32 `bin:"  optional   big "`
	Z uint16
}

type tg441 struct {
	A uint16
	F uint16 `bin:""`
	B uint16
	P *uint32 `bin:""`
	Z uint16
}

type tg442 struct {
	A uint16
	F uint16 `Bin:"big"`
	B uint16
	P *uint32 `Bin:"big"`
	Z uint16
}

type tg443 struct {
	A uint16
	F uint16 `binary:"-"`
	B uint16
	P *uint32 `binary:"-"`
	Z uint16
}

type tg444 struct {
	A uint16
	F uint16 `bin:"optional" bin2:"-"`
	B uint16
	P *uint32 `bin:"optional" bin2:"-"`
	Z uint16
}

type tg445 struct {
	A uint16
	F uint16 `xbin:"-" bin:"big"`
	B uint16
	P *uint32 `xbin:"-" bin:"big"`
	Z uint16
}

const nTags = 446

// mkTag draws a value of the k-th tag combination.
func mkTag(b *B, k int) (v, dirty interface{}, kept func() bool) {
	switch k {
	case 0: // bin:"foo"
		x, y := &tg0{}, &tg0{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 1: // bin:"bigger"
		x, y := &tg1{}, &tg1{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 2: // bin:"opt"
		x, y := &tg2{}, &tg2{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 3: // bin:"Big"
		x, y := &tg3{}, &tg3{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 4: // bin:"sizeofX"
		x, y := &tg4{}, &tg4{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 5: // bin:"_"
		x, y := &tg5{}, &tg5{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 6: // bin:"OPTIONAL"
		x, y := &tg6{}, &tg6{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 7: // bin:"- foo"
		x, y := &tg7{}, &tg7{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 8: // bin:"foo -"
		x, y := &tg8{}, &tg8{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 9: // bin:"- bigger"
		x, y := &tg9{}, &tg9{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 10: // bin:"bigger -"
		x, y := &tg10{}, &tg10{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 11: // bin:"- opt"
		x, y := &tg11{}, &tg11{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 12: // bin:"opt -"
		x, y := &tg12{}, &tg12{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 13: // bin:"- Big"
		x, y := &tg13{}, &tg13{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 14: // bin:"Big -"
		x, y := &tg14{}, &tg14{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 15: // bin:"- sizeofX"
		x, y := &tg15{}, &tg15{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 16: // bin:"sizeofX -"
		x, y := &tg16{}, &tg16{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 17: // bin:"- _"
		x, y := &tg17{}, &tg17{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 18: // bin:"_ -"
		x, y := &tg18{}, &tg18{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 19: // bin:"- OPTIONAL"
		x, y := &tg19{}, &tg19{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 20: // bin:"OPTIONAL -"
		x, y := &tg20{}, &tg20{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 21: // bin:"skip foo"
		x, y := &tg21{}, &tg21{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 22: // bin:"foo skip"
		x, y := &tg22{}, &tg22{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 23: // bin:"skip bigger"
		x, y := &tg23{}, &tg23{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 24: // bin:"bigger skip"
		x, y := &tg24{}, &tg24{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 25: // bin:"skip opt"
		x, y := &tg25{}, &tg25{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 26: // bin:"opt skip"
		x, y := &tg26{}, &tg26{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 27: // bin:"skip Big"
		x, y := &tg27{}, &tg27{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 28: // bin:"Big skip"
		x, y := &tg28{}, &tg28{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 29: // bin:"skip sizeofX"
		x, y := &tg29{}, &tg29{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 30: // bin:"sizeofX skip"
		x, y := &tg30{}, &tg30{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 31: // bin:"skip _"
		x, y := &tg31{}, &tg31{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 32: // bin:"_ skip"
		x, y := &tg32{}, &tg32{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 33: // bin:"skip OPTIONAL"
		x, y := &tg33{}, &tg33{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 34: // bin:"OPTIONAL skip"
		x, y := &tg34{}, &tg34{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 35: // bin:"optional foo"
		x, y := &tg35{}, &tg35{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 36: // bin:"foo optional"
		x, y := &tg36{}, &tg36{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 37: // bin:"optional bigger"
		x, y := &tg37{}, &tg37{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 38: // bin:"bigger optional"
		x, y := &tg38{}, &tg38{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 39: // bin:"optional opt"
		x, y := &tg39{}, &tg39{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 40: // bin:"opt optional"
		x, y := &tg40{}, &tg40{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 41: // bin:"optional Big"
		x, y := &tg41{}, &tg41{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 42: // bin:"Big optional"
		x, y := &tg42{}, &tg42{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 43: // bin:"optional sizeofX"
		x, y := &tg43{}, &tg43{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 44: // bin:"sizeofX optional"
		x, y := &tg44{}, &tg44{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 45: // bin:"optional _"
		x, y := &tg45{}, &tg45{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 46: // bin:"_ optional"
		x, y := &tg46{}, &tg46{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 47: // bin:"optional OPTIONAL"
		x, y := &tg47{}, &tg47{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 48: // bin:"OPTIONAL optional"
		x, y := &tg48{}, &tg48{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 49: // bin:"optional -"
		x, y := &tg49{}, &tg49{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 50: // bin:"- optional"
		x, y := &tg50{}, &tg50{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 51: // bin:"optional - opt"
		x, y := &tg51{}, &tg51{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 52: // bin:"optional opt -"
		x, y := &tg52{}, &tg52{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 53: // bin:"- optional opt"
		x, y := &tg53{}, &tg53{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 54: // bin:"- opt optional"
		x, y := &tg54{}, &tg54{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 55: // bin:"opt optional -"
		x, y := &tg55{}, &tg55{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 56: // bin:"opt - optional"
		x, y := &tg56{}, &tg56{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 57: // bin:"optional - _"
		x, y := &tg57{}, &tg57{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 58: // bin:"optional _ -"
		x, y := &tg58{}, &tg58{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 59: // bin:"- optional _"
		x, y := &tg59{}, &tg59{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 60: // bin:"- _ optional"
		x, y := &tg60{}, &tg60{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 61: // bin:"_ optional -"
		x, y := &tg61{}, &tg61{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 62: // bin:"_ - optional"
		x, y := &tg62{}, &tg62{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 63: // bin:"optional skip"
		x, y := &tg63{}, &tg63{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 64: // bin:"skip optional"
		x, y := &tg64{}, &tg64{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 65: // bin:"optional skip bigger"
		x, y := &tg65{}, &tg65{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 66: // bin:"optional bigger skip"
		x, y := &tg66{}, &tg66{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 67: // bin:"skip optional bigger"
		x, y := &tg67{}, &tg67{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 68: // bin:"skip bigger optional"
		x, y := &tg68{}, &tg68{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 69: // bin:"bigger optional skip"
		x, y := &tg69{}, &tg69{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 70: // bin:"bigger skip optional"
		x, y := &tg70{}, &tg70{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 71: // bin:"optional skip sizeofX"
		x, y := &tg71{}, &tg71{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 72: // bin:"optional sizeofX skip"
		x, y := &tg72{}, &tg72{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 73: // bin:"skip optional sizeofX"
		x, y := &tg73{}, &tg73{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 74: // bin:"skip sizeofX optional"
		x, y := &tg74{}, &tg74{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 75: // bin:"sizeofX optional skip"
		x, y := &tg75{}, &tg75{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 76: // bin:"sizeofX skip optional"
		x, y := &tg76{}, &tg76{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 77: // bin:"option foo"
		x, y := &tg77{}, &tg77{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 78: // bin:"foo option"
		x, y := &tg78{}, &tg78{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 79: // bin:"option bigger"
		x, y := &tg79{}, &tg79{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 80: // bin:"bigger option"
		x, y := &tg80{}, &tg80{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 81: // bin:"option opt"
		x, y := &tg81{}, &tg81{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 82: // bin:"opt option"
		x, y := &tg82{}, &tg82{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 83: // bin:"option Big"
		x, y := &tg83{}, &tg83{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 84: // bin:"Big option"
		x, y := &tg84{}, &tg84{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 85: // bin:"option sizeofX"
		x, y := &tg85{}, &tg85{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 86: // bin:"sizeofX option"
		x, y := &tg86{}, &tg86{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 87: // bin:"option _"
		x, y := &tg87{}, &tg87{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 88: // bin:"_ option"
		x, y := &tg88{}, &tg88{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 89: // bin:"option OPTIONAL"
		x, y := &tg89{}, &tg89{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 90: // bin:"OPTIONAL option"
		x, y := &tg90{}, &tg90{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 91: // bin:"option -"
		x, y := &tg91{}, &tg91{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 92: // bin:"- option"
		x, y := &tg92{}, &tg92{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 93: // bin:"option - bigger"
		x, y := &tg93{}, &tg93{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 94: // bin:"option bigger -"
		x, y := &tg94{}, &tg94{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 95: // bin:"- option bigger"
		x, y := &tg95{}, &tg95{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 96: // bin:"- bigger option"
		x, y := &tg96{}, &tg96{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 97: // bin:"bigger option -"
		x, y := &tg97{}, &tg97{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 98: // bin:"bigger - option"
		x, y := &tg98{}, &tg98{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 99: // bin:"option - sizeofX"
		x, y := &tg99{}, &tg99{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 100: // bin:"option sizeofX -"
		x, y := &tg100{}, &tg100{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 101: // bin:"- option sizeofX"
		x, y := &tg101{}, &tg101{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 102: // bin:"- sizeofX option"
		x, y := &tg102{}, &tg102{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 103: // bin:"sizeofX option -"
		x, y := &tg103{}, &tg103{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 104: // bin:"sizeofX - option"
		x, y := &tg104{}, &tg104{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 105: // bin:"option skip"
		x, y := &tg105{}, &tg105{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 106: // bin:"skip option"
		x, y := &tg106{}, &tg106{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 107: // bin:"option skip foo"
		x, y := &tg107{}, &tg107{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 108: // bin:"option foo skip"
		x, y := &tg108{}, &tg108{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 109: // bin:"skip option foo"
		x, y := &tg109{}, &tg109{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 110: // bin:"skip foo option"
		x, y := &tg110{}, &tg110{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 111: // bin:"foo option skip"
		x, y := &tg111{}, &tg111{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 112: // bin:"foo skip option"
		x, y := &tg112{}, &tg112{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 113: // bin:"option skip Big"
		x, y := &tg113{}, &tg113{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 114: // bin:"option Big skip"
		x, y := &tg114{}, &tg114{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 115: // bin:"skip option Big"
		x, y := &tg115{}, &tg115{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 116: // bin:"skip Big option"
		x, y := &tg116{}, &tg116{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 117: // bin:"Big option skip"
		x, y := &tg117{}, &tg117{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 118: // bin:"Big skip option"
		x, y := &tg118{}, &tg118{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 119: // bin:"option skip OPTIONAL"
		x, y := &tg119{}, &tg119{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 120: // bin:"option OPTIONAL skip"
		x, y := &tg120{}, &tg120{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 121: // bin:"skip option OPTIONAL"
		x, y := &tg121{}, &tg121{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 122: // bin:"skip OPTIONAL option"
		x, y := &tg122{}, &tg122{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 123: // bin:"OPTIONAL option skip"
		x, y := &tg123{}, &tg123{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 124: // bin:"OPTIONAL skip option"
		x, y := &tg124{}, &tg124{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 125: // bin:"coption foo"
		x, y := &tg125{}, &tg125{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 126: // bin:"foo coption"
		x, y := &tg126{}, &tg126{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 127: // bin:"coption bigger"
		x, y := &tg127{}, &tg127{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 128: // bin:"bigger coption"
		x, y := &tg128{}, &tg128{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 129: // bin:"coption opt"
		x, y := &tg129{}, &tg129{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 130: // bin:"opt coption"
		x, y := &tg130{}, &tg130{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 131: // bin:"coption Big"
		x, y := &tg131{}, &tg131{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 132: // bin:"Big coption"
		x, y := &tg132{}, &tg132{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 133: // bin:"coption sizeofX"
		x, y := &tg133{}, &tg133{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 134: // bin:"sizeofX coption"
		x, y := &tg134{}, &tg134{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 135: // bin:"coption _"
		x, y := &tg135{}, &tg135{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 136: // bin:"_ coption"
		x, y := &tg136{}, &tg136{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 137: // bin:"coption OPTIONAL"
		x, y := &tg137{}, &tg137{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 138: // bin:"OPTIONAL coption"
		x, y := &tg138{}, &tg138{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 139: // bin:"coption -"
		x, y := &tg139{}, &tg139{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 140: // bin:"- coption"
		x, y := &tg140{}, &tg140{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 141: // bin:"coption - foo"
		x, y := &tg141{}, &tg141{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 142: // bin:"coption foo -"
		x, y := &tg142{}, &tg142{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 143: // bin:"- coption foo"
		x, y := &tg143{}, &tg143{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 144: // bin:"- foo coption"
		x, y := &tg144{}, &tg144{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 145: // bin:"foo coption -"
		x, y := &tg145{}, &tg145{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 146: // bin:"foo - coption"
		x, y := &tg146{}, &tg146{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 147: // bin:"coption - Big"
		x, y := &tg147{}, &tg147{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 148: // bin:"coption Big -"
		x, y := &tg148{}, &tg148{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 149: // bin:"- coption Big"
		x, y := &tg149{}, &tg149{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 150: // bin:"- Big coption"
		x, y := &tg150{}, &tg150{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 151: // bin:"Big coption -"
		x, y := &tg151{}, &tg151{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 152: // bin:"Big - coption"
		x, y := &tg152{}, &tg152{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 153: // bin:"coption - OPTIONAL"
		x, y := &tg153{}, &tg153{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 154: // bin:"coption OPTIONAL -"
		x, y := &tg154{}, &tg154{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 155: // bin:"- coption OPTIONAL"
		x, y := &tg155{}, &tg155{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 156: // bin:"- OPTIONAL coption"
		x, y := &tg156{}, &tg156{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 157: // bin:"OPTIONAL coption -"
		x, y := &tg157{}, &tg157{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 158: // bin:"OPTIONAL - coption"
		x, y := &tg158{}, &tg158{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 159: // bin:"coption skip"
		x, y := &tg159{}, &tg159{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 160: // bin:"skip coption"
		x, y := &tg160{}, &tg160{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 161: // bin:"coption skip opt"
		x, y := &tg161{}, &tg161{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 162: // bin:"coption opt skip"
		x, y := &tg162{}, &tg162{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 163: // bin:"skip coption opt"
		x, y := &tg163{}, &tg163{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 164: // bin:"skip opt coption"
		x, y := &tg164{}, &tg164{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 165: // bin:"opt coption skip"
		x, y := &tg165{}, &tg165{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 166: // bin:"opt skip coption"
		x, y := &tg166{}, &tg166{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 167: // bin:"coption skip _"
		x, y := &tg167{}, &tg167{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 168: // bin:"coption _ skip"
		x, y := &tg168{}, &tg168{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 169: // bin:"skip coption _"
		x, y := &tg169{}, &tg169{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 170: // bin:"skip _ coption"
		x, y := &tg170{}, &tg170{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 171: // bin:"_ coption skip"
		x, y := &tg171{}, &tg171{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 172: // bin:"_ skip coption"
		x, y := &tg172{}, &tg172{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 173: // bin:"big foo"
		x, y := &tg173{}, &tg173{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 174: // bin:"foo big"
		x, y := &tg174{}, &tg174{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 175: // bin:"big bigger"
		x, y := &tg175{}, &tg175{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 176: // bin:"bigger big"
		x, y := &tg176{}, &tg176{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 177: // bin:"big opt"
		x, y := &tg177{}, &tg177{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 178: // bin:"opt big"
		x, y := &tg178{}, &tg178{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 179: // bin:"big Big"
		x, y := &tg179{}, &tg179{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 180: // bin:"Big big"
		x, y := &tg180{}, &tg180{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 181: // bin:"big sizeofX"
		x, y := &tg181{}, &tg181{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 182: // bin:"sizeofX big"
		x, y := &tg182{}, &tg182{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 183: // bin:"big _"
		x, y := &tg183{}, &tg183{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 184: // bin:"_ big"
		x, y := &tg184{}, &tg184{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 185: // bin:"big OPTIONAL"
		x, y := &tg185{}, &tg185{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 186: // bin:"OPTIONAL big"
		x, y := &tg186{}, &tg186{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 187: // bin:"big -"
		x, y := &tg187{}, &tg187{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 188: // bin:"- big"
		x, y := &tg188{}, &tg188{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 189: // bin:"big - opt"
		x, y := &tg189{}, &tg189{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 190: // bin:"big opt -"
		x, y := &tg190{}, &tg190{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 191: // bin:"- big opt"
		x, y := &tg191{}, &tg191{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 192: // bin:"- opt big"
		x, y := &tg192{}, &tg192{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 193: // bin:"opt big -"
		x, y := &tg193{}, &tg193{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 194: // bin:"opt - big"
		x, y := &tg194{}, &tg194{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 195: // bin:"big - _"
		x, y := &tg195{}, &tg195{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 196: // bin:"big _ -"
		x, y := &tg196{}, &tg196{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 197: // bin:"- big _"
		x, y := &tg197{}, &tg197{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 198: // bin:"- _ big"
		x, y := &tg198{}, &tg198{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 199: // bin:"_ big -"
		x, y := &tg199{}, &tg199{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 200: // bin:"_ - big"
		x, y := &tg200{}, &tg200{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 201: // bin:"big skip"
		x, y := &tg201{}, &tg201{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 202: // bin:"skip big"
		x, y := &tg202{}, &tg202{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 203: // bin:"big skip bigger"
		x, y := &tg203{}, &tg203{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 204: // bin:"big bigger skip"
		x, y := &tg204{}, &tg204{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 205: // bin:"skip big bigger"
		x, y := &tg205{}, &tg205{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 206: // bin:"skip bigger big"
		x, y := &tg206{}, &tg206{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 207: // bin:"bigger big skip"
		x, y := &tg207{}, &tg207{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 208: // bin:"bigger skip big"
		x, y := &tg208{}, &tg208{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 209: // bin:"big skip sizeofX"
		x, y := &tg209{}, &tg209{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 210: // bin:"big sizeofX skip"
		x, y := &tg210{}, &tg210{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 211: // bin:"skip big sizeofX"
		x, y := &tg211{}, &tg211{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 212: // bin:"skip sizeofX big"
		x, y := &tg212{}, &tg212{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 213: // bin:"sizeofX big skip"
		x, y := &tg213{}, &tg213{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 214: // bin:"sizeofX skip big"
		x, y := &tg214{}, &tg214{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 215: // bin:"big optional"
		x, y := &tg215{}, &tg215{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 216: // bin:"optional big"
		x, y := &tg216{}, &tg216{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 217: // bin:"big optional foo"
		x, y := &tg217{}, &tg217{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 218: // bin:"big foo optional"
		x, y := &tg218{}, &tg218{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 219: // bin:"optional big foo"
		x, y := &tg219{}, &tg219{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 220: // bin:"optional foo big"
		x, y := &tg220{}, &tg220{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 221: // bin:"foo big optional"
		x, y := &tg221{}, &tg221{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 222: // bin:"foo optional big"
		x, y := &tg222{}, &tg222{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 223: // bin:"big optional Big"
		x, y := &tg223{}, &tg223{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 224: // bin:"big Big optional"
		x, y := &tg224{}, &tg224{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 225: // bin:"optional big Big"
		x, y := &tg225{}, &tg225{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 226: // bin:"optional Big big"
		x, y := &tg226{}, &tg226{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 227: // bin:"Big big optional"
		x, y := &tg227{}, &tg227{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 228: // bin:"Big optional big"
		x, y := &tg228{}, &tg228{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 229: // bin:"big optional OPTIONAL"
		x, y := &tg229{}, &tg229{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 230: // bin:"big OPTIONAL optional"
		x, y := &tg230{}, &tg230{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 231: // bin:"optional big OPTIONAL"
		x, y := &tg231{}, &tg231{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 232: // bin:"optional OPTIONAL big"
		x, y := &tg232{}, &tg232{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 233: // bin:"OPTIONAL big optional"
		x, y := &tg233{}, &tg233{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 234: // bin:"OPTIONAL optional big"
		x, y := &tg234{}, &tg234{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 235: // bin:"big optional -"
		x, y := &tg235{}, &tg235{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 236: // bin:"big - optional"
		x, y := &tg236{}, &tg236{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 237: // bin:"optional big -"
		x, y := &tg237{}, &tg237{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 238: // bin:"optional - big"
		x, y := &tg238{}, &tg238{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 239: // bin:"- big optional"
		x, y := &tg239{}, &tg239{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 240: // bin:"- optional big"
		x, y := &tg240{}, &tg240{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 241: // bin:"big optional skip"
		x, y := &tg241{}, &tg241{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 242: // bin:"big skip optional"
		x, y := &tg242{}, &tg242{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 243: // bin:"optional big skip"
		x, y := &tg243{}, &tg243{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 244: // bin:"optional skip big"
		x, y := &tg244{}, &tg244{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 245: // bin:"skip big optional"
		x, y := &tg245{}, &tg245{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 246: // bin:"skip optional big"
		x, y := &tg246{}, &tg246{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 247: // bin:"big option"
		x, y := &tg247{}, &tg247{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 248: // bin:"option big"
		x, y := &tg248{}, &tg248{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 249: // bin:"big option bigger"
		x, y := &tg249{}, &tg249{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 250: // bin:"big bigger option"
		x, y := &tg250{}, &tg250{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 251: // bin:"option big bigger"
		x, y := &tg251{}, &tg251{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 252: // bin:"option bigger big"
		x, y := &tg252{}, &tg252{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 253: // bin:"bigger big option"
		x, y := &tg253{}, &tg253{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 254: // bin:"bigger option big"
		x, y := &tg254{}, &tg254{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 255: // bin:"big option sizeofX"
		x, y := &tg255{}, &tg255{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 256: // bin:"big sizeofX option"
		x, y := &tg256{}, &tg256{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 257: // bin:"option big sizeofX"
		x, y := &tg257{}, &tg257{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 258: // bin:"option sizeofX big"
		x, y := &tg258{}, &tg258{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 259: // bin:"sizeofX big option"
		x, y := &tg259{}, &tg259{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 260: // bin:"sizeofX option big"
		x, y := &tg260{}, &tg260{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 261: // bin:"big option -"
		x, y := &tg261{}, &tg261{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 262: // bin:"big - option"
		x, y := &tg262{}, &tg262{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 263: // bin:"option big -"
		x, y := &tg263{}, &tg263{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 264: // bin:"option - big"
		x, y := &tg264{}, &tg264{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 265: // bin:"- big option"
		x, y := &tg265{}, &tg265{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 266: // bin:"- option big"
		x, y := &tg266{}, &tg266{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 267: // bin:"big option skip"
		x, y := &tg267{}, &tg267{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 268: // bin:"big skip option"
		x, y := &tg268{}, &tg268{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 269: // bin:"option big skip"
		x, y := &tg269{}, &tg269{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 270: // bin:"option skip big"
		x, y := &tg270{}, &tg270{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 271: // bin:"skip big option"
		x, y := &tg271{}, &tg271{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 272: // bin:"skip option big"
		x, y := &tg272{}, &tg272{}
		tagDraw(b, true, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 273: // bin:"big coption"
		x, y := &tg273{}, &tg273{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 274: // bin:"coption big"
		x, y := &tg274{}, &tg274{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 275: // bin:"big coption opt"
		x, y := &tg275{}, &tg275{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 276: // bin:"big opt coption"
		x, y := &tg276{}, &tg276{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 277: // bin:"coption big opt"
		x, y := &tg277{}, &tg277{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 278: // bin:"coption opt big"
		x, y := &tg278{}, &tg278{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 279: // bin:"opt big coption"
		x, y := &tg279{}, &tg279{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 280: // bin:"opt coption big"
		x, y := &tg280{}, &tg280{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 281: // bin:"big coption _"
		x, y := &tg281{}, &tg281{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 282: // bin:"big _ coption"
		x, y := &tg282{}, &tg282{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 283: // bin:"coption big _"
		x, y := &tg283{}, &tg283{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 284: // bin:"coption _ big"
		x, y := &tg284{}, &tg284{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 285: // bin:"_ big coption"
		x, y := &tg285{}, &tg285{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 286: // bin:"_ coption big"
		x, y := &tg286{}, &tg286{}
		tagDraw(b, true, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 287: // bin:"big coption -"
		x, y := &tg287{}, &tg287{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 288: // bin:"big - coption"
		x, y := &tg288{}, &tg288{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 289: // bin:"coption big -"
		x, y := &tg289{}, &tg289{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 290: // bin:"coption - big"
		x, y := &tg290{}, &tg290{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 291: // bin:"- big coption"
		x, y := &tg291{}, &tg291{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 292: // bin:"- coption big"
		x, y := &tg292{}, &tg292{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 293: // bin:"big coption skip"
		x, y := &tg293{}, &tg293{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 294: // bin:"big skip coption"
		x, y := &tg294{}, &tg294{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 295: // bin:"coption big skip"
		x, y := &tg295{}, &tg295{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 296: // bin:"coption skip big"
		x, y := &tg296{}, &tg296{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 297: // bin:"skip big coption"
		x, y := &tg297{}, &tg297{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 298: // bin:"skip coption big"
		x, y := &tg298{}, &tg298{}
		tagDraw(b, true, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 299: // bin:"little foo"
		x, y := &tg299{}, &tg299{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 300: // bin:"foo little"
		x, y := &tg300{}, &tg300{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 301: // bin:"little bigger"
		x, y := &tg301{}, &tg301{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 302: // bin:"bigger little"
		x, y := &tg302{}, &tg302{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 303: // bin:"little opt"
		x, y := &tg303{}, &tg303{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 304: // bin:"opt little"
		x, y := &tg304{}, &tg304{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 305: // bin:"little Big"
		x, y := &tg305{}, &tg305{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 306: // bin:"Big little"
		x, y := &tg306{}, &tg306{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 307: // bin:"little sizeofX"
		x, y := &tg307{}, &tg307{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 308: // bin:"sizeofX little"
		x, y := &tg308{}, &tg308{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 309: // bin:"little _"
		x, y := &tg309{}, &tg309{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 310: // bin:"_ little"
		x, y := &tg310{}, &tg310{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 311: // bin:"little OPTIONAL"
		x, y := &tg311{}, &tg311{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 312: // bin:"OPTIONAL little"
		x, y := &tg312{}, &tg312{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 313: // bin:"little -"
		x, y := &tg313{}, &tg313{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 314: // bin:"- little"
		x, y := &tg314{}, &tg314{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 315: // bin:"little - bigger"
		x, y := &tg315{}, &tg315{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 316: // bin:"little bigger -"
		x, y := &tg316{}, &tg316{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 317: // bin:"- little bigger"
		x, y := &tg317{}, &tg317{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 318: // bin:"- bigger little"
		x, y := &tg318{}, &tg318{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 319: // bin:"bigger little -"
		x, y := &tg319{}, &tg319{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 320: // bin:"bigger - little"
		x, y := &tg320{}, &tg320{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 321: // bin:"little - sizeofX"
		x, y := &tg321{}, &tg321{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 322: // bin:"little sizeofX -"
		x, y := &tg322{}, &tg322{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 323: // bin:"- little sizeofX"
		x, y := &tg323{}, &tg323{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 324: // bin:"- sizeofX little"
		x, y := &tg324{}, &tg324{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 325: // bin:"sizeofX little -"
		x, y := &tg325{}, &tg325{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 326: // bin:"sizeofX - little"
		x, y := &tg326{}, &tg326{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 327: // bin:"little skip"
		x, y := &tg327{}, &tg327{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 328: // bin:"skip little"
		x, y := &tg328{}, &tg328{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 329: // bin:"little skip foo"
		x, y := &tg329{}, &tg329{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 330: // bin:"little foo skip"
		x, y := &tg330{}, &tg330{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 331: // bin:"skip little foo"
		x, y := &tg331{}, &tg331{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 332: // bin:"skip foo little"
		x, y := &tg332{}, &tg332{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 333: // bin:"foo little skip"
		x, y := &tg333{}, &tg333{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 334: // bin:"foo skip little"
		x, y := &tg334{}, &tg334{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 335: // bin:"little skip Big"
		x, y := &tg335{}, &tg335{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 336: // bin:"little Big skip"
		x, y := &tg336{}, &tg336{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 337: // bin:"skip little Big"
		x, y := &tg337{}, &tg337{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 338: // bin:"skip Big little"
		x, y := &tg338{}, &tg338{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 339: // bin:"Big little skip"
		x, y := &tg339{}, &tg339{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 340: // bin:"Big skip little"
		x, y := &tg340{}, &tg340{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 341: // bin:"little skip OPTIONAL"
		x, y := &tg341{}, &tg341{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 342: // bin:"little OPTIONAL skip"
		x, y := &tg342{}, &tg342{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 343: // bin:"skip little OPTIONAL"
		x, y := &tg343{}, &tg343{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 344: // bin:"skip OPTIONAL little"
		x, y := &tg344{}, &tg344{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 345: // bin:"OPTIONAL little skip"
		x, y := &tg345{}, &tg345{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 346: // bin:"OPTIONAL skip little"
		x, y := &tg346{}, &tg346{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 347: // bin:"little optional"
		x, y := &tg347{}, &tg347{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 348: // bin:"optional little"
		x, y := &tg348{}, &tg348{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 349: // bin:"little optional opt"
		x, y := &tg349{}, &tg349{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 350: // bin:"little opt optional"
		x, y := &tg350{}, &tg350{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 351: // bin:"optional little opt"
		x, y := &tg351{}, &tg351{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 352: // bin:"optional opt little"
		x, y := &tg352{}, &tg352{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 353: // bin:"opt little optional"
		x, y := &tg353{}, &tg353{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 354: // bin:"opt optional little"
		x, y := &tg354{}, &tg354{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 355: // bin:"little optional _"
		x, y := &tg355{}, &tg355{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 356: // bin:"little _ optional"
		x, y := &tg356{}, &tg356{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 357: // bin:"optional little _"
		x, y := &tg357{}, &tg357{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 358: // bin:"optional _ little"
		x, y := &tg358{}, &tg358{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 359: // bin:"_ little optional"
		x, y := &tg359{}, &tg359{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 360: // bin:"_ optional little"
		x, y := &tg360{}, &tg360{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 361: // bin:"little optional -"
		x, y := &tg361{}, &tg361{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 362: // bin:"little - optional"
		x, y := &tg362{}, &tg362{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 363: // bin:"optional little -"
		x, y := &tg363{}, &tg363{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 364: // bin:"optional - little"
		x, y := &tg364{}, &tg364{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 365: // bin:"- little optional"
		x, y := &tg365{}, &tg365{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 366: // bin:"- optional little"
		x, y := &tg366{}, &tg366{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 367: // bin:"little optional skip"
		x, y := &tg367{}, &tg367{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 368: // bin:"little skip optional"
		x, y := &tg368{}, &tg368{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 369: // bin:"optional little skip"
		x, y := &tg369{}, &tg369{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 370: // bin:"optional skip little"
		x, y := &tg370{}, &tg370{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 371: // bin:"skip little optional"
		x, y := &tg371{}, &tg371{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 372: // bin:"skip optional little"
		x, y := &tg372{}, &tg372{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 373: // bin:"little option"
		x, y := &tg373{}, &tg373{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 374: // bin:"option little"
		x, y := &tg374{}, &tg374{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 375: // bin:"little option foo"
		x, y := &tg375{}, &tg375{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 376: // bin:"little foo option"
		x, y := &tg376{}, &tg376{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 377: // bin:"option little foo"
		x, y := &tg377{}, &tg377{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 378: // bin:"option foo little"
		x, y := &tg378{}, &tg378{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 379: // bin:"foo little option"
		x, y := &tg379{}, &tg379{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 380: // bin:"foo option little"
		x, y := &tg380{}, &tg380{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 381: // bin:"little option Big"
		x, y := &tg381{}, &tg381{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 382: // bin:"little Big option"
		x, y := &tg382{}, &tg382{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 383: // bin:"option little Big"
		x, y := &tg383{}, &tg383{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 384: // bin:"option Big little"
		x, y := &tg384{}, &tg384{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 385: // bin:"Big little option"
		x, y := &tg385{}, &tg385{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 386: // bin:"Big option little"
		x, y := &tg386{}, &tg386{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 387: // bin:"little option OPTIONAL"
		x, y := &tg387{}, &tg387{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 388: // bin:"little OPTIONAL option"
		x, y := &tg388{}, &tg388{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 389: // bin:"option little OPTIONAL"
		x, y := &tg389{}, &tg389{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 390: // bin:"option OPTIONAL little"
		x, y := &tg390{}, &tg390{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 391: // bin:"OPTIONAL little option"
		x, y := &tg391{}, &tg391{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 392: // bin:"OPTIONAL option little"
		x, y := &tg392{}, &tg392{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 393: // bin:"little option -"
		x, y := &tg393{}, &tg393{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 394: // bin:"little - option"
		x, y := &tg394{}, &tg394{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 395: // bin:"option little -"
		x, y := &tg395{}, &tg395{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 396: // bin:"option - little"
		x, y := &tg396{}, &tg396{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 397: // bin:"- little option"
		x, y := &tg397{}, &tg397{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 398: // bin:"- option little"
		x, y := &tg398{}, &tg398{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 399: // bin:"little option skip"
		x, y := &tg399{}, &tg399{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 400: // bin:"little skip option"
		x, y := &tg400{}, &tg400{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 401: // bin:"option little skip"
		x, y := &tg401{}, &tg401{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 402: // bin:"option skip little"
		x, y := &tg402{}, &tg402{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 403: // bin:"skip little option"
		x, y := &tg403{}, &tg403{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 404: // bin:"skip option little"
		x, y := &tg404{}, &tg404{}
		tagDraw(b, false, 1, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 405: // bin:"little coption"
		x, y := &tg405{}, &tg405{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 406: // bin:"coption little"
		x, y := &tg406{}, &tg406{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 407: // bin:"little coption bigger"
		x, y := &tg407{}, &tg407{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 408: // bin:"little bigger coption"
		x, y := &tg408{}, &tg408{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 409: // bin:"coption little bigger"
		x, y := &tg409{}, &tg409{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 410: // bin:"coption bigger little"
		x, y := &tg410{}, &tg410{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 411: // bin:"bigger little coption"
		x, y := &tg411{}, &tg411{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 412: // bin:"bigger coption little"
		x, y := &tg412{}, &tg412{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 413: // bin:"little coption sizeofX"
		x, y := &tg413{}, &tg413{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 414: // bin:"little sizeofX coption"
		x, y := &tg414{}, &tg414{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 415: // bin:"coption little sizeofX"
		x, y := &tg415{}, &tg415{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 416: // bin:"coption sizeofX little"
		x, y := &tg416{}, &tg416{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 417: // bin:"sizeofX little coption"
		x, y := &tg417{}, &tg417{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 418: // bin:"sizeofX coption little"
		x, y := &tg418{}, &tg418{}
		tagDraw(b, false, 2, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 419: // bin:"little coption -"
		x, y := &tg419{}, &tg419{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 420: // bin:"little - coption"
		x, y := &tg420{}, &tg420{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 421: // bin:"coption little -"
		x, y := &tg421{}, &tg421{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 422: // bin:"coption - little"
		x, y := &tg422{}, &tg422{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 423: // bin:"- little coption"
		x, y := &tg423{}, &tg423{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 424: // bin:"- coption little"
		x, y := &tg424{}, &tg424{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 425: // bin:"little coption skip"
		x, y := &tg425{}, &tg425{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 426: // bin:"little skip coption"
		x, y := &tg426{}, &tg426{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 427: // bin:"coption little skip"
		x, y := &tg427{}, &tg427{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 428: // bin:"coption skip little"
		x, y := &tg428{}, &tg428{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 429: // bin:"skip little coption"
		x, y := &tg429{}, &tg429{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 430: // bin:"skip coption little"
		x, y := &tg430{}, &tg430{}
		tagDraw(b, false, 2, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 431: // json:"x" bin:"big"
		x, y := &tg431{}, &tg431{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 432: // bin:"big" json:"optional"
		x, y := &tg432{}, &tg432{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 433: // json:"big,omitempty"
		x, y := &tg433{}, &tg433{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 434: // bin:"big" borsh_skip:"true"
		x, y := &tg434{}, &tg434{}
		tagDraw(b, true, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 435: // borsh_skip:"true"
		x, y := &tg435{}, &tg435{}
		tagDraw(b, false, 0, true, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = sym.U16("held"), new(uint32)
		f, p := y.F, y.P
		return x, y, func() bool { r := sym.And(y.F == f, y.P == p); y.F, y.P = x.F, x.P; return r }
	case 436: // borsh_skip:"false" bin:"optional"
		x, y := &tg436{}, &tg436{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 437: // bin:" big"
		x, y := &tg437{}, &tg437{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 438: // bin:"big "
		x, y := &tg438{}, &tg438{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 439: // bin:"big  optional"
		x, y := &tg439{}, &tg439{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 440: // bin:"  optional   big "
		x, y := &tg440{}, &tg440{}
		tagDraw(b, true, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 441: // bin:""
		x, y := &tg441{}, &tg441{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 442: // Bin:"big"
		x, y := &tg442{}, &tg442{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 443: // binary:"-"
		x, y := &tg443{}, &tg443{}
		tagDraw(b, false, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 444: // bin:"optional" bin2:"-"
		x, y := &tg444{}, &tg444{}
		tagDraw(b, false, 1, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	case 445: // xbin:"-" bin:"big"
		x, y := &tg445{}, &tg445{}
		tagDraw(b, true, 0, false, &x.A, &x.F, &x.B, &x.P, &x.Z)
		y.F, y.P = 7, new(uint32)
		return x, y, nil
	}
	return nil, nil, nil
}
