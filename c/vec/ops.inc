OP(APPBIT) OP(READBIT) OP(APPBYTE) OP(DECBYTE) OP(PEEKBYTE) OP(APPBITS) OP(READBITS) OP(APPARR) OP(READARR) OP(SKIP) OP(NIBBLE)
OP(APPPART) OP(READPART) OP(PEEKPART) OP(ENCNN) OP(DECNN) OP(ENCUINT) OP(DECUINT) OP(DECINT) OP(MATCH) OP(READNT)
OP(UC_E) OP(UC_D) OP(UB_E) OP(UB_D) OP(TC_E) OP(TC_D) OP(TB_E) OP(TB_D) OP(UV_E) OP(UV_D) OP(TV_E) OP(TV_D)
OP(BC_E) OP(BC_D) OP(BN_E) OP(BN_D) OP(BL_E) OP(BL_D) OP(AIC_E) OP(AIC_D) OP(AUC_E) OP(AUC_D) OP(AIL_E) OP(AIL_D) OP(AUL_E) OP(AUL_D) OP(AIN_E) OP(AIN_D) OP(AUN_E) OP(AUN_D)
OP(CI_E) OP(CI_D) OP(CU_E) OP(CU_D) OP(CII_D) OP(SI_E) OP(SI_D) OP(SU_E) OP(SU_D) OP(UI_E) OP(UI_D) OP(UIM_D)
OP(REAL_E) OP(REAL_D) OP(IEEE_E) OP(IEEE_D) OP(OCTN_E) OP(OCTN_D) OP(OCT_E) OP(OCT_D) OP(BST_E) OP(BST_D) OP(OID_E) OP(OID_D) OP(ROID_E) OP(ROID_D)
OP(BOOL_E) OP(BOOL_D) OP(BT_E) OP(BT_D) OP(BF_E) OP(BF_D) OP(BTF_E) OP(BTF_D) OP(NP_E) OP(NP_D) OP(NP2_E) OP(NP2_D)
OP(SF_E) OP(SF_D) OP(SN_E) OP(SN_D) OP(SI2_E) OP(SI2_D) OP(SX_E) OP(SX_D) OP(CX_E) OP(CX_D) OP(CN_E) OP(CN_D) OP(CF_E) OP(CF_D) OP(IX_E) OP(IX_D) OP(IN_E) OP(IN_D)
OP(DET_U) OP(DET_CONST) OP(DET_TC) OP(DET_STR) OP(MB_E) OP(MB_D)
OP(LSB_E) OP(LSB_D) OP(NBITS) OP(PEEKBIT) OP(ALIGN)
