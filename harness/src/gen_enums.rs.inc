// Generated by tools/gen_enums.py: large enumerations for the tag monitor.
cenum!(Full8, u8, { V0 = 106, V1 = 178, V2 = 186, V3 = 37, V4 = 32, V5 = 2, V6 = 254, V7 = 154, V8 = 115, V9 = 243, V10 = 83, V11 = 27, V12 = 248, V13 = 25, V14 = 218, V15 = 122, V16 = 91, V17 = 216, V18 = 123, V19 = 105, V20 = 184, V21 = 173, V22 = 64, V23 = 200, V24 = 255, V25 = 66, V26 = 28, V27 = 219, V28 = 44, V29 = 59, V30 = 49, V31 = 247, V32 = 99, V33 = 240, V34 = 85, V35 = 96, V36 = 227, V37 = 41, V38 = 94, V39 = 251, V40 = 190, V41 = 60, V42 = 100, V43 = 81, V44 = 82, V45 = 112, V46 = 67, V47 = 168, V48 = 188, V49 = 4, V50 = 198, V51 = 39, V52 = 181, V53 = 77, V54 = 214, V55 = 239, V56 = 231, V57 = 152, V58 = 97, V59 = 3, V60 = 225, V61 = 120, V62 = 86, V63 = 176, V64 = 217, V65 = 203, V66 = 8, V67 = 197, V68 = 7, V69 = 241, V70 = 234, V71 = 13, V72 = 213, V73 = 187, V74 = 245, V75 = 224, V76 = 71, V77 = 58, V78 = 6, V79 = 156, V80 = 65, V81 = 193, V82 = 40, V83 = 196, V84 = 207, V85 = 47, V86 = 68, V87 = 159, V88 = 167, V89 = 0, V90 = 229, V91 = 128, V92 = 175, V93 = 75, V94 = 177, V95 = 1, V96 = 139, V97 = 84, V98 = 103, V99 = 102, V100 = 238, V101 = 145, V102 = 157, V103 = 133, V104 = 199, V105 = 153, V106 = 45, V107 = 53, V108 = 135, V109 = 183, V110 = 124, V111 = 110, V112 = 130, V113 = 104, V114 = 150, V115 = 113, V116 = 35, V117 = 70, V118 = 51, V119 = 226, V120 = 21, V121 = 191, V122 = 151, V123 = 237, V124 = 117, V125 = 132, V126 = 50, V127 = 179, V128 = 33, V129 = 169, V130 = 55, V131 = 206, V132 = 172, V133 = 29, V134 = 43, V135 = 90, V136 = 118, V137 = 5, V138 = 88, V139 = 98, V140 = 72, V141 = 170, V142 = 79, V143 = 192, V144 = 194, V145 = 121, V146 = 69, V147 = 233, V148 = 235, V149 = 195, V150 = 202, V151 = 189, V152 = 89, V153 = 162, V154 = 185, V155 = 201, V156 = 215, V157 = 19, V158 = 10, V159 = 164, V160 = 125, V161 = 253, V162 = 171, V163 = 42, V164 = 212, V165 = 131, V166 = 209, V167 = 249, V168 = 155, V169 = 73, V170 = 114, V171 = 87, V172 = 126, V173 = 134, V174 = 180, V175 = 221, V176 = 20, V177 = 62, V178 = 204, V179 = 63, V180 = 76, V181 = 92, V182 = 116, V183 = 220, V184 = 119, V185 = 80, V186 = 109, V187 = 136, V188 = 205, V189 = 127, V190 = 52, V191 = 158, V192 = 222, V193 = 228, V194 = 16, V195 = 182, V196 = 140, V197 = 246, V198 = 95, V199 = 48, V200 = 163, V201 = 208, V202 = 148, V203 = 26, V204 = 46, V205 = 174, V206 = 143, V207 = 78, V208 = 146, V209 = 30, V210 = 138, V211 = 36, V212 = 236, V213 = 74, V214 = 34, V215 = 142, V216 = 11, V217 = 56, V218 = 250, V219 = 252, V220 = 223, V221 = 147, V222 = 230, V223 = 244, V224 = 160, V225 = 161, V226 = 57, V227 = 31, V228 = 144, V229 = 211, V230 = 15, V231 = 108, V232 = 141, V233 = 23, V234 = 61, V235 = 17, V236 = 107, V237 = 111, V238 = 22, V239 = 9, V240 = 54, V241 = 129, V242 = 232, V243 = 14, V244 = 149, V245 = 93, V246 = 24, V247 = 137, V248 = 210, V249 = 18, V250 = 12, V251 = 166, V252 = 101, V253 = 38, V254 = 242, V255 = 165 });
cenum!(Holes8, u8, { V0 = 1, V1 = 2, V2 = 3, V3 = 4, V4 = 5, V5 = 6, V6 = 7, V7 = 8, V8 = 9, V9 = 10, V10 = 11, V11 = 12, V12 = 13, V13 = 14, V14 = 15, V15 = 16, V16 = 17, V17 = 18, V18 = 19, V19 = 20, V20 = 21, V21 = 22, V22 = 23, V23 = 24, V24 = 25, V25 = 26, V26 = 27, V27 = 28, V28 = 29, V29 = 30, V30 = 31, V31 = 32, V32 = 33, V33 = 34, V34 = 35, V35 = 36, V36 = 37, V37 = 38, V38 = 39, V39 = 40, V40 = 41, V41 = 42, V42 = 43, V43 = 44, V44 = 45, V45 = 46, V46 = 47, V47 = 48, V48 = 49, V49 = 50, V50 = 51, V51 = 52, V52 = 53, V53 = 54, V54 = 55, V55 = 56, V56 = 57, V57 = 58, V58 = 59, V59 = 60, V60 = 61, V61 = 62, V62 = 63, V63 = 64, V64 = 65, V65 = 66, V66 = 67, V67 = 68, V68 = 69, V69 = 70, V70 = 71, V71 = 72, V72 = 73, V73 = 74, V74 = 75, V75 = 76, V76 = 77, V77 = 78, V78 = 79, V79 = 80, V80 = 81, V81 = 82, V82 = 83, V83 = 84, V84 = 86, V85 = 87, V86 = 88, V87 = 89, V88 = 90, V89 = 91, V90 = 92, V91 = 93, V92 = 94, V93 = 95, V94 = 96, V95 = 97, V96 = 98, V97 = 99, V98 = 100, V99 = 101, V100 = 102, V101 = 103, V102 = 104, V103 = 105, V104 = 106, V105 = 107, V106 = 108, V107 = 109, V108 = 110, V109 = 111, V110 = 112, V111 = 113, V112 = 114, V113 = 115, V114 = 116, V115 = 117, V116 = 118, V117 = 119, V118 = 120, V119 = 121, V120 = 122, V121 = 123, V122 = 124, V123 = 125, V124 = 126, V125 = 127, V126 = 128, V127 = 129, V128 = 130, V129 = 131, V130 = 132, V131 = 133, V132 = 134, V133 = 135, V134 = 136, V135 = 137, V136 = 138, V137 = 139, V138 = 140, V139 = 141, V140 = 142, V141 = 143, V142 = 144, V143 = 145, V144 = 146, V145 = 147, V146 = 148, V147 = 149, V148 = 150, V149 = 151, V150 = 152, V151 = 153, V152 = 154, V153 = 155, V154 = 156, V155 = 157, V156 = 158, V157 = 159, V158 = 160, V159 = 161, V160 = 162, V161 = 163, V162 = 164, V163 = 165, V164 = 166, V165 = 167, V166 = 168, V167 = 169, V168 = 170, V169 = 171, V170 = 172, V171 = 173, V172 = 174, V173 = 175, V174 = 176, V175 = 177, V176 = 178, V177 = 179, V178 = 180, V179 = 181, V180 = 182, V181 = 183, V182 = 184, V183 = 185, V184 = 186, V185 = 187, V186 = 188, V187 = 189, V188 = 190, V189 = 191, V190 = 192, V191 = 193, V192 = 194, V193 = 195, V194 = 196, V195 = 197, V196 = 198, V197 = 199, V198 = 200, V199 = 201, V200 = 202, V201 = 203, V202 = 204, V203 = 205, V204 = 206, V205 = 207, V206 = 208, V207 = 209, V208 = 210, V209 = 211, V210 = 212, V211 = 213, V212 = 214, V213 = 215, V214 = 216, V215 = 217, V216 = 218, V217 = 219, V218 = 220, V219 = 221, V220 = 222, V221 = 223, V222 = 224, V223 = 225, V224 = 226, V225 = 227, V226 = 228, V227 = 229, V228 = 230, V229 = 231, V230 = 232, V231 = 233, V232 = 234, V233 = 235, V234 = 236, V235 = 237, V236 = 238, V237 = 239, V238 = 240, V239 = 241, V240 = 242, V241 = 243, V242 = 244, V243 = 245, V244 = 246, V245 = 247, V246 = 248, V247 = 249, V248 = 250, V249 = 251, V250 = 252, V251 = 253, V252 = 254 });
cenum!(Many16, u16, { V0 = 25578, V1 = 31377, V2 = 52518, V3 = 29719, V4 = 26203, V5 = 64589, V6 = 46604, V7 = 3798, V8 = 3661, V9 = 36623, V10 = 61897, V11 = 33970, V12 = 25381, V13 = 45125, V14 = 58619, V15 = 45812, V16 = 47793, V17 = 10556, V18 = 28896, V19 = 13389, V20 = 29733, V21 = 61614, V22 = 25782, V23 = 44267, V24 = 26787, V25 = 63262, V26 = 250, V27 = 62845, V28 = 45089, V29 = 11112, V30 = 15716, V31 = 50926, V32 = 26125, V33 = 62656, V34 = 23399, V35 = 56875, V36 = 43583, V37 = 11370, V38 = 51883, V39 = 60707, V40 = 52610, V41 = 11130, V42 = 20821, V43 = 22282, V44 = 16651, V45 = 3610, V46 = 19811, V47 = 60994, V48 = 19159, V49 = 62174, V50 = 45928, V51 = 20435, V52 = 17168, V53 = 2804, V54 = 1866, V55 = 13470, V56 = 18251, V57 = 56860, V58 = 25533, V59 = 27661, V60 = 3669, V61 = 33008, V62 = 27889, V63 = 38399, V64 = 31527, V65 = 42728, V66 = 33995, V67 = 54920, V68 = 17180, V69 = 7982, V70 = 46371, V71 = 60052, V72 = 55132, V73 = 17139, V74 = 19901, V75 = 2451, V76 = 57688, V77 = 24000, V78 = 515, V79 = 19634, V80 = 22589, V81 = 18554, V82 = 62061, V83 = 15772, V84 = 8094, V85 = 42727, V86 = 63240, V87 = 13907, V88 = 7447, V89 = 32570, V90 = 25074, V91 = 36296, V92 = 5531, V93 = 12811, V94 = 59267, V95 = 3652, V96 = 8305, V97 = 58097, V98 = 42678, V99 = 26136, V100 = 36331, V101 = 59289, V102 = 62657, V103 = 32460, V104 = 34025, V105 = 26553, V106 = 58658, V107 = 17974, V108 = 54609, V109 = 15941, V110 = 51427, V111 = 57949, V112 = 41416, V113 = 9508, V114 = 31541, V115 = 56143, V116 = 9584, V117 = 27877, V118 = 39685, V119 = 16036, V120 = 20243, V121 = 47996, V122 = 18740, V123 = 33175, V124 = 17990, V125 = 61307, V126 = 28781, V127 = 12337, V128 = 52200, V129 = 63866, V130 = 21337, V131 = 29322, V132 = 21163, V133 = 56560, V134 = 52928, V135 = 44448, V136 = 55217, V137 = 25656, V138 = 46742, V139 = 41749, V140 = 12084, V141 = 47966, V142 = 2553, V143 = 44299, V144 = 60118, V145 = 57731, V146 = 2370, V147 = 50376, V148 = 43450, V149 = 38725, V150 = 8426, V151 = 14791, V152 = 29957, V153 = 13733, V154 = 11018, V155 = 34808, V156 = 35641, V157 = 5188, V158 = 23796, V159 = 35447, V160 = 16981, V161 = 55345, V162 = 33896, V163 = 53208, V164 = 19577, V165 = 64829, V166 = 42866, V167 = 11725, V168 = 36577, V169 = 7540, V170 = 24031, V171 = 55747, V172 = 9491, V173 = 35248, V174 = 2206, V175 = 11608, V176 = 34151, V177 = 10976, V178 = 29151, V179 = 8732, V180 = 34662, V181 = 15948, V182 = 59477, V183 = 1513, V184 = 44453, V185 = 54756, V186 = 35108, V187 = 16937, V188 = 5663, V189 = 31252, V190 = 14346, V191 = 21161, V192 = 34327, V193 = 6603, V194 = 23743, V195 = 26446, V196 = 40893, V197 = 39977, V198 = 26983, V199 = 38005, V200 = 58417, V201 = 23317, V202 = 35457, V203 = 45482, V204 = 2380, V205 = 32826, V206 = 4843, V207 = 2011, V208 = 2416, V209 = 24832, V210 = 62227, V211 = 32201, V212 = 58596, V213 = 13930, V214 = 56646, V215 = 64880, V216 = 51522, V217 = 40341, V218 = 28204, V219 = 30089, V220 = 44918, V221 = 26034, V222 = 18313, V223 = 53044, V224 = 45554, V225 = 7128, V226 = 17015, V227 = 1868, V228 = 9269, V229 = 33501, V230 = 56458, V231 = 21397, V232 = 7261, V233 = 11073, V234 = 49922, V235 = 36953, V236 = 31747, V237 = 38411, V238 = 5929, V239 = 60221, V240 = 24294, V241 = 20648, V242 = 35263, V243 = 58435, V244 = 474, V245 = 34503, V246 = 47728, V247 = 43113, V248 = 42406, V249 = 32040, V250 = 4515, V251 = 40573, V252 = 28556, V253 = 46738, V254 = 23980, V255 = 140, V256 = 43952, V257 = 50020, V258 = 10995, V259 = 62212, V260 = 36559, V261 = 26342, V262 = 32529, V263 = 648, V264 = 11908, V265 = 34625, V266 = 11764, V267 = 18856, V268 = 52364, V269 = 5461, V270 = 51639, V271 = 2948, V272 = 39275, V273 = 39877, V274 = 30514, V275 = 20349, V276 = 51054, V277 = 42747, V278 = 64774, V279 = 19590, V280 = 37247, V281 = 18972, V282 = 5739, V283 = 56261, V284 = 18259, V285 = 2107, V286 = 30138, V287 = 11153, V288 = 4084, V289 = 5486, V290 = 17444, V291 = 47278, V292 = 13751, V293 = 49364, V294 = 59164, V295 = 6655, V296 = 2469, V297 = 32054, V298 = 64132, V299 = 34575 });
cenum!(Edge16, u16, { V0 = 255, V1 = 256, V2 = 65280, V3 = 65535, V4 = 32768, V5 = 32767, V6 = 1, V7 = 0 });
cenum!(Many32, u32, { V0 = 7479172, V1 = 14234932, V2 = 53554861, V3 = 75181072, V4 = 106662965, V5 = 207309913, V6 = 260537059, V7 = 436840512, V8 = 604332896, V9 = 633185881, V10 = 855772365, V11 = 881402583, V12 = 904987392, V13 = 993785023, V14 = 1140563900, V15 = 1141293139, V16 = 1153874069, V17 = 1244823085, V18 = 1357544871, V19 = 1477297579, V20 = 1598681340, V21 = 1643084753, V22 = 1687489986, V23 = 1936000748, V24 = 1971264698, V25 = 1995711774, V26 = 2087958217, V27 = 2185040365, V28 = 2194569327, V29 = 2218503913, V30 = 2250845109, V31 = 2298665724, V32 = 2358916945, V33 = 2438517928, V34 = 2497404815, V35 = 2530494479, V36 = 2709676839, V37 = 2760645980, V38 = 2886224805, V39 = 2902142302, V40 = 2936454391, V41 = 2972912703, V42 = 3020809581, V43 = 3062412897, V44 = 3090540709, V45 = 3164481770, V46 = 3224378145, V47 = 3294111535, V48 = 3426084916, V49 = 3603953432, V50 = 3608764809, V51 = 3797895964, V52 = 3809043993, V53 = 3978852801, V54 = 4018327971, V55 = 4021181774, V56 = 4091988595, V57 = 4106698539, V58 = 4190750329, V59 = 4201018061 });
cenum!(Edge32, u32, { V0 = 255, V1 = 256, V2 = 65535, V3 = 65536, V4 = 4278190080, V5 = 4294967295, V6 = 2147483648, V7 = 1073741823, V8 = 1073741824, V9 = 7 });
