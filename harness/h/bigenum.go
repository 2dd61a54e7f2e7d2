package h

import bin "github.com/gagliardetto/binary"

// tEnum255 has the largest number of variants a one-byte tag below 255 can select.
type tEnum255 struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	V0   uint8
	V1   uint8
	V2   uint8
	V3   uint8
	V4   uint8
	V5   uint8
	V6   uint8
	V7   uint8
	V8   uint8
	V9   uint8
	V10  uint8
	V11  uint8
	V12  uint8
	V13  uint8
	V14  uint8
	V15  uint8
	V16  uint8
	V17  uint8
	V18  uint8
	V19  uint8
	V20  uint8
	V21  uint8
	V22  uint8
	V23  uint8
	V24  uint8
	V25  uint8
	V26  uint8
	V27  uint8
	V28  uint8
	V29  uint8
	V30  uint8
	V31  uint8
	V32  uint8
	V33  uint8
	V34  uint8
	V35  uint8
	V36  uint8
	V37  uint8
	V38  uint8
	V39  uint8
	V40  uint8
	V41  uint8
	V42  uint8
	V43  uint8
	V44  uint8
	V45  uint8
	V46  uint8
	V47  uint8
	V48  uint8
	V49  uint8
	V50  uint8
	V51  uint8
	V52  uint8
	V53  uint8
	V54  uint8
	V55  uint8
	V56  uint8
	V57  uint8
	V58  uint8
	V59  uint8
	V60  uint8
	V61  uint8
	V62  uint8
	V63  uint8
	V64  uint8
	V65  uint8
	V66  uint8
	V67  uint8
	V68  uint8
	V69  uint8
	V70  uint8
	V71  uint8
	V72  uint8
	V73  uint8
	V74  uint8
	V75  uint8
	V76  uint8
	V77  uint8
	V78  uint8
	V79  uint8
	V80  uint8
	V81  uint8
	V82  uint8
	V83  uint8
	V84  uint8
	V85  uint8
	V86  uint8
	V87  uint8
	V88  uint8
	V89  uint8
	V90  uint8
	V91  uint8
	V92  uint8
	V93  uint8
	V94  uint8
	V95  uint8
	V96  uint8
	V97  uint8
	V98  uint8
	V99  uint8
	V100 uint8
	V101 uint8
	V102 uint8
	V103 uint8
	V104 uint8
	V105 uint8
	V106 uint8
	V107 uint8
	V108 uint8
	V109 uint8
	V110 uint8
	V111 uint8
	V112 uint8
	V113 uint8
	V114 uint8
	V115 uint8
	V116 uint8
	V117 uint8
	V118 uint8
	V119 uint8
	V120 uint8
	V121 uint8
	V122 uint8
	V123 uint8
	V124 uint8
	V125 uint8
	V126 uint8
	V127 uint8
	V128 uint8
	V129 uint8
	V130 uint8
	V131 uint8
	V132 uint8
	V133 uint8
	V134 uint8
	V135 uint8
	V136 uint8
	V137 uint8
	V138 uint8
	V139 uint8
	V140 uint8
	V141 uint8
	V142 uint8
	V143 uint8
	V144 uint8
	V145 uint8
	V146 uint8
	V147 uint8
	V148 uint8
	V149 uint8
	V150 uint8
	V151 uint8
	V152 uint8
	V153 uint8
	V154 uint8
	V155 uint8
	V156 uint8
	V157 uint8
	V158 uint8
	V159 uint8
	V160 uint8
	V161 uint8
	V162 uint8
	V163 uint8
	V164 uint8
	V165 uint8
	V166 uint8
	V167 uint8
	V168 uint8
	V169 uint8
	V170 uint8
	V171 uint8
	V172 uint8
	V173 uint8
	V174 uint8
	V175 uint8
	V176 uint8
	V177 uint8
	V178 uint8
	V179 uint8
	V180 uint8
	V181 uint8
	V182 uint8
	V183 uint8
	V184 uint8
	V185 uint8
	V186 uint8
	V187 uint8
	V188 uint8
	V189 uint8
	V190 uint8
	V191 uint8
	V192 uint8
	V193 uint8
	V194 uint8
	V195 uint8
	V196 uint8
	V197 uint8
	V198 uint8
	V199 uint8
	V200 uint8
	V201 uint8
	V202 uint8
	V203 uint8
	V204 uint8
	V205 uint8
	V206 uint8
	V207 uint8
	V208 uint8
	V209 uint8
	V210 uint8
	V211 uint8
	V212 uint8
	V213 uint8
	V214 uint8
	V215 uint8
	V216 uint8
	V217 uint8
	V218 uint8
	V219 uint8
	V220 uint8
	V221 uint8
	V222 uint8
	V223 uint8
	V224 uint8
	V225 uint8
	V226 uint8
	V227 uint8
	V228 uint8
	V229 uint8
	V230 uint8
	V231 uint8
	V232 uint8
	V233 uint8
	V234 uint8
	V235 uint8
	V236 uint8
	V237 uint8
	V238 uint8
	V239 uint8
	V240 uint8
	V241 uint8
	V242 uint8
	V243 uint8
	V244 uint8
	V245 uint8
	V246 uint8
	V247 uint8
	V248 uint8
	V249 uint8
	V250 uint8
	V251 uint8
	V252 uint8
	V253 uint8
	V254 uint8
}
