"""Columns of the records of a .dyr file: model -> (kind, key of the model name, flag key or None, {key: (column, type)}); column 0 is the bus, 1 the model, 2 the identifier"""
MODELS = {
    "ACMTBLU1": ("load", "LOAD_MODEL", None,
        """LOAD_TSTALL:11 LOAD_TRESTART:12 LOAD_TV:13 LOAD_TF:14 LOAD_COMPLF:15 LOAD_COMPPF:16 LOAD_VSTALL:17 LOAD_RSTALL:18 LOAD_XSTALL:19 LOAD_LFADJ:20
        LOAD_KP1:21 LOAD_NP1:22 LOAD_KQ1:23 LOAD_NQ1:24 LOAD_KP2:25 LOAD_NP2:26 LOAD_KQ2:27 LOAD_NQ2:28 LOAD_VBRK:29 LOAD_FRST:30 LOAD_VRST:31 LOAD_CMPKPF:32
        LOAD_CMPKQF:33 LOAD_VC1OFF:34 LOAD_VC2OFF:35 LOAD_VC1ON:36 LOAD_VC2ON:37 LOAD_TTH:38 LOAD_TH1T:39 LOAD_TH2T:40 LOAD_FUVR:41 LOAD_UVTR1:42 LOAD_TTR1:43
        LOAD_UVTR2:44 LOAD_TTR2:45 LOAD_AC_PERC:46"""),
    "CIM6BL": ("load", "LOAD_MODEL", None,
        """LOAD_IT:3i LOAD_RA:4 LOAD_XA:5 LOAD_XM:6 LOAD_R1:7 LOAD_X1:8 LOAD_R2:9 LOAD_X2:10 LOAD_E1:11 LOAD_SE1:12 LOAD_E2:13 LOAD_SE2:14 LOAD_MBASE:15
        LOAD_PMULT:16 LOAD_H:17 LOAD_VI:18 LOAD_TI:19 LOAD_TB:20 LOAD_A:21 LOAD_B:22 LOAD_D:23 LOAD_E:24 LOAD_C0:25 LOAD_TNOM:26 LOAD_DYN_PERC:27"""),
    "CMLDBLU1": ("load", "LOAD_MODEL", None,
        """LOAD_IT:5i LOAD_MVA:11 LOAD_BSS:12 LOAD_RFDR:13 LOAD_XFDR:14 LOAD_FB:15 LOAD_XXF:16 LOAD_TFIXHS:17 LOAD_TFIXLS:18 LOAD_LTC:19 LOAD_TMIN:20
        LOAD_TMAX:21 LOAD_STEP:22 LOAD_VMIN:23 LOAD_VMAX:24 LOAD_TDEL:25 LOAD_TTAP:26 LOAD_RCOMP:27 LOAD_XCOMP:28 LOAD_FMA:29 LOAD_FMB:30 LOAD_FMC:31
        LOAD_FMD:32 LOAD_FEL:33 LOAD_PFEL:34 LOAD_VD1:35 LOAD_VD2:36 LOAD_PFS:37 LOAD_P1E:38 LOAD_P1C:39 LOAD_P2E:40 LOAD_P2C:41 LOAD_PFREQ:42 LOAD_Q1E:43
        LOAD_Q1C:44 LOAD_Q2E:45 LOAD_Q2C:46 LOAD_QFREQ:47 LOAD_MTPA:48i LOAD_LFMA:49 LOAD_RSA:50 LOAD_LSA:51 LOAD_LPA:52 LOAD_LPPA:53 LOAD_TPOA:54
        LOAD_TPPOA:55 LOAD_HA:56 LOAD_ETRQA:57 LOAD_VTR1A:58 LOAD_TTR1A:59 LOAD_FTR1A:60 LOAD_VRC1A:61 LOAD_TRC1A:62 LOAD_VTR2A:63 LOAD_TTR2A:64 LOAD_FTR2A:65
        LOAD_VRC2A:66 LOAD_TRC2A:67 LOAD_MTPB:68i LOAD_LFMB:69 LOAD_RSB:70 LOAD_LSB:71 LOAD_LPB:72 LOAD_LPPB:73 LOAD_TPOB:74 LOAD_TPPOB:75 LOAD_HB:76
        LOAD_ETRQB:77 LOAD_VTR1B:78 LOAD_TTR1B:79 LOAD_FTR1B:80 LOAD_VRC1B:81 LOAD_TRC1B:82 LOAD_VTR2B:83 LOAD_TTR2B:84 LOAD_FTR2B:85 LOAD_VRC2B:86
        LOAD_TRC2B:87 LOAD_MTPC:88i LOAD_LFMC:89 LOAD_RSC:90 LOAD_LSC:91 LOAD_LPC:92 LOAD_LPPC:93 LOAD_TPOC:94 LOAD_TPPOC:95 LOAD_HC:96 LOAD_ETRQC:97
        LOAD_VTR1C:98 LOAD_TTR1C:99 LOAD_FTR1C:100 LOAD_VRC1C:101 LOAD_TRC1C:102 LOAD_VTR2C:103 LOAD_TTR2C:104 LOAD_FTR2C:105 LOAD_VRC2C:106 LOAD_TRC2C:107
        LOAD_TSTALL:108 LOAD_TRST:109 LOAD_TV:110 LOAD_TF:111 LOAD_LFMD:112 LOAD_COMPPF:113 LOAD_VSTALL:114 LOAD_RSTALL:115 LOAD_XSTALL:116 LOAD_LFADJ:117
        LOAD_KP1:118 LOAD_NP1:119 LOAD_KQ1:120 LOAD_NQ1:121 LOAD_KP2:122 LOAD_NP2:123 LOAD_KQ2:124 LOAD_NQ2:125 LOAD_VBRK:126 LOAD_FRST:127 LOAD_VRST:128
        LOAD_CMPKPF:129 LOAD_CMPKQF:130 LOAD_VC1OFF:131 LOAD_VC2OFF:132 LOAD_VC1ON:133 LOAD_VC2ON:134 LOAD_TTH:135 LOAD_TH1T:136 LOAD_TH2T:137 LOAD_FUVR:138
        LOAD_UVTR1:139 LOAD_TTR1:140 LOAD_UVTR2:141 LOAD_TTR2:142"""),
    "DISTR1": ("relay", "RELAY_MODEL", None,
        """RELAY_ID:3q RELAY_RS:4i RELAY_MTYPE:5i RELAY_BMON:6i RELAY_IBUS1:7i RELAY_JBUS1:8i RELAY_ID1:9q RELAY_IBUS2:10i RELAY_JBUS2:11i RELAY_ID2:12q
        RELAY_IBUS3:13i RELAY_JBUS3:14i RELAY_ID3:15q RELAY_ZONE1_TIME:16 RELAY_ZONE1_REACH:17 RELAY_ZONE1_CENANG:18 RELAY_ZONE1_CENDIS:19 RELAY_ZONE2_TIME:20
        RELAY_ZONE2_REACH:21 RELAY_ZONE2_CENANG:22 RELAY_ZONE2_CENDIS:23 RELAY_ZONE3_TIME:24 RELAY_ZONE3_REACH:25 RELAY_ZONE3_CENANG:26 RELAY_ZONE3_CENDIS:27
        RELAY_DIRANG:28 RELAY_THCUR:29 RELAY_SEBTIME:30 RELAY_SERCTIME:31 RELAY_TRBTIME:32 RELAY_TRRCTIME:33 RELAY_BLTYPE1:34i RELAY_BLINT1:35 RELAY_BLRO1:36
        RELAY_BLTYPE2:37i RELAY_BLINT2:38 RELAY_BLRO2:39"""),
    "ESST1A": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """EXCITER_UEL:3 EXCITER_VOS:4 EXCITER_TR:5 EXCITER_VIMAX:6 EXCITER_VIMIN:7 EXCITER_TC:8 EXCITER_TB:9 EXCITER_TC1:10 EXCITER_TB1:11 EXCITER_KA:12
        EXCITER_TA:13 EXCITER_VAMAX:14 EXCITER_VAMIN:15 EXCITER_VRMAX:16 EXCITER_VRMIN:17 EXCITER_KC:18 EXCITER_KF:19 EXCITER_TF:20 EXCITER_KLR:21
        EXCITER_ILR:22"""),
    "ESST4B": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """EXCITER_TR:3 EXCITER_KPR:4 EXCITER_KIR:5 EXCITER_VRMAX:6 EXCITER_VRMIN:7 EXCITER_TA:8 EXCITER_KPM:9 EXCITER_KIM:10 EXCITER_VMMAX:11 EXCITER_VMMIN:12
        EXCITER_KG:13 EXCITER_KP:14 EXCITER_KI:15 EXCITER_VBMAX:16 EXCITER_KC:17 EXCITER_XL:18 EXCITER_THETAP:19"""),
    "EXDC1": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """EXCITER_TR:3 EXCITER_KA:4 EXCITER_TA:5 EXCITER_TB:6 EXCITER_TC:7 EXCITER_VRMAX:8 EXCITER_VRMIN:9 EXCITER_KE:10 EXCITER_TE:11 EXCITER_KF:12
        EXCITER_TF1:13 EXCITER_SWITCH:14 EXCITER_E1:15 EXCITER_SE1:16 EXCITER_E2:17 EXCITER_SE2:18"""),
    "FRQTPAT": ("relay", "RELAY_MODEL", None,
        """RELAY_GENID:4q RELAY_MINS:0i RELAY_FREBUS:2i RELAY_FL:5 RELAY_FU:6 RELAY_TP:7 RELAY_TB:8"""),
    "GAST": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_R:3 GOVERNOR_T1:4 GOVERNOR_T2:5 GOVERNOR_T3:6 GOVERNOR_AT:7 GOVERNOR_KT:8 GOVERNOR_VMAX:9 GOVERNOR_VMIN:10 GOVERNOR_DT:11"""),
    "GDFORM": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_MQ:3 GENERATOR_KPV:4 GENERATOR_KIV:5 GENERATOR_MP:6 GENERATOR_KPPMAX:7 GENERATOR_KIPMAX:8 GENERATOR_PMAX:9 GENERATOR_PMIN:10
        GENERATOR_EMAX:11 GENERATOR_EMIN:12 GENERATOR_TPF:13 GENERATOR_IMAX:14 GENERATOR_QMAX:15 GENERATOR_QMIN:16 GENERATOR_KPQMAX:17 GENERATOR_KIQMAX:18
        GENERATOR_TQF:19 GENERATOR_TVF:20 GENERATOR_VFLAG:21i"""),
    "GENCLS": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_INERTIA_CONSTANT_H:3 GENERATOR_DAMPING_COEFFICIENT_0:4 GENERATOR_TRANSIENT_REACTANCE:5"""),
    "GENROU": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_TDOP:3 GENERATOR_TDOPP:4 GENERATOR_TQOP:5 GENERATOR_TQOPP:6 GENERATOR_INERTIA_CONSTANT_H:7 GENERATOR_DAMPING_COEFFICIENT_0:8 GENERATOR_XD:9
        GENERATOR_XQ:10 GENERATOR_XDP:11 GENERATOR_XQP:12 GENERATOR_XDPP:13 GENERATOR_XL:14 GENERATOR_S1:15 GENERATOR_S12:16"""),
    "GENSAL": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_TDOP:3 GENERATOR_TDOPP:4 GENERATOR_TQOPP:5 GENERATOR_INERTIA_CONSTANT_H:6 GENERATOR_DAMPING_COEFFICIENT_0:7 GENERATOR_XD:8 GENERATOR_XQ:9
        GENERATOR_XDP:10 GENERATOR_XDPP:11 GENERATOR_XL:12 GENERATOR_S1:13 GENERATOR_S12:14"""),
    "GGOV1": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_RSELECT:3 GOVERNOR_FLAGSWITCH:4 GOVERNOR_R:5 GOVERNOR_TPELEC:6 GOVERNOR_MAXERR:7 GOVERNOR_MINERR:8 GOVERNOR_KPGOV:9 GOVERNOR_KIGOV:10
        GOVERNOR_KDGOV:11 GOVERNOR_TDGOV:12 GOVERNOR_VMAX:13 GOVERNOR_VMIN:14 GOVERNOR_TACT:15 GOVERNOR_KTURB:16 GOVERNOR_WFNL:17 GOVERNOR_TB:18
        GOVERNOR_TC:19 GOVERNOR_TENG:20 GOVERNOR_TFLOAD:21 GOVERNOR_KPLOAD:22 GOVERNOR_KILOAD:23 GOVERNOR_LDREF:24 GOVERNOR_DM:25 GOVERNOR_ROPEN:26
        GOVERNOR_RCLOSE:27 GOVERNOR_KIMW:28 GOVERNOR_ASET:29 GOVERNOR_KA:30 GOVERNOR_TA:31 GOVERNOR_TRATE:32 GOVERNOR_DB:33 GOVERNOR_TSA:34 GOVERNOR_TSB:35
        GOVERNOR_RUP:36 GOVERNOR_RDOWN:37"""),
    "HYGOV": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_R:3 GOVERNOR_r:4 GOVERNOR_TR:5 GOVERNOR_TF:6 GOVERNOR_TG:7 GOVERNOR_VELM:8 GOVERNOR_GMAX:9 GOVERNOR_GMIN:10 GOVERNOR_TW:11 GOVERNOR_AT:12
        GOVERNOR_DT:13 GOVERNOR_QNL:14"""),
    "IEEET1": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """EXCITER_TR:3 EXCITER_KA:4 EXCITER_TA:5 EXCITER_VRMAX:6 EXCITER_VRMIN:7 EXCITER_KE:8 EXCITER_TE:9 EXCITER_KF:10 EXCITER_TF1:11 EXCITER_SWITCH:12
        EXCITER_E1:13 EXCITER_SE1:14 EXCITER_E2:15 EXCITER_SE2:16"""),
    "IEELBL": ("load", "LOAD_MODEL", None,
        """LOAD_A1:3 LOAD_A2:4 LOAD_A3:5 LOAD_A4:6 LOAD_A5:7 LOAD_A6:8 LOAD_A7:9 LOAD_A8:10 LOAD_N1:11 LOAD_N2:12 LOAD_N3:13 LOAD_N4:14 LOAD_N5:15 LOAD_N6:16"""),
    "LVSHBL": ("relay", "RELAY_MODEL", None,
        """RELAY_LID:2q RELAY_JBUS:3i RELAY_V1:4 RELAY_T1:5 RELAY_F1:6 RELAY_V2:7 RELAY_T2:8 RELAY_F2:9 RELAY_V3:10 RELAY_T3:11 RELAY_F3:12 RELAY_TB:13"""),
    "PSSSIM": ("gen", "PSS_MODEL", 'HAS_PSS',
        """PSSSIM_INPUTTYPE:3i PSSSIM_BUS1:4i PSSSIM_BUS2:5i PSSSIM_BUS3:6i PSSSIM_BUS4:7i PSSSIM_BUS5:8i PSSSIM_BUS6:9i PSSSIM_GAINK:10 PSSSIM_TW:11 PSSSIM_T1:12
        PSSSIM_T2:13 PSSSIM_T3:14 PSSSIM_T4:15 PSSSIM_MAXOUT:16 PSSSIM_MINOUT:17"""),
    "REECA1": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """GENERATOR_REECA_IREG:3i GENERATOR_REECA_PFFLAG:4i GENERATOR_REECA_VFLAG:5i GENERATOR_REECA_QFLAG:6i GENERATOR_REECA_PFLAG:7i GENERATOR_REECA_PQFLAG:8i
        GENERATOR_REECA_VDIP:9 GENERATOR_REECA_VUP:10 GENERATOR_REECA_TRV:11 GENERATOR_REECA_DBD1:12 GENERATOR_REECA_DBD2:13 GENERATOR_REECA_KQV:14
        GENERATOR_REECA_IQH1:15 GENERATOR_REECA_IQL1:16 GENERATOR_REECA_VREF0:17 GENERATOR_REECA_IQFRZ:18 GENERATOR_REECA_THLD:19 GENERATOR_REECA_THLD2:20
        GENERATOR_REECA_TP:21 GENERATOR_REECA_QMAX:22 GENERATOR_REECA_QMIN:23 GENERATOR_REECA_VMAX:24 GENERATOR_REECA_VMIN:25 GENERATOR_REECA_KQP:26
        GENERATOR_REECA_KQI:27 GENERATOR_REECA_KVP:28 GENERATOR_REECA_KVI:29 GENERATOR_REECA_VBIAS:30 GENERATOR_REECA_TIQ:31 GENERATOR_REECA_DPMAX:32
        GENERATOR_REECA_DPMIN:33 GENERATOR_REECA_PMAX:34 GENERATOR_REECA_PMIN:35 GENERATOR_REECA_IMAX:36 GENERATOR_REECA_TPORD:37 GENERATOR_REECA_VQ1:38
        GENERATOR_REECA_IQ1:39 GENERATOR_REECA_VQ2:40 GENERATOR_REECA_IQ2:41 GENERATOR_REECA_VQ3:42 GENERATOR_REECA_IQ3:43 GENERATOR_REECA_VQ4:44
        GENERATOR_REECA_IQ4:45 GENERATOR_REECA_VP1:46 GENERATOR_REECA_IP1:47 GENERATOR_REECA_VP2:48 GENERATOR_REECA_IP2:49 GENERATOR_REECA_VP3:50
        GENERATOR_REECA_IP3:51 GENERATOR_REECA_VP4:52 GENERATOR_REECA_IP4:53"""),
    "REGCA1": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_REGC_LVPLSW:3i GENERATOR_REGC_TG:4 GENERATOR_REGC_RRPWR:5 GENERATOR_REGC_BRKPT:6 GENERATOR_REGC_ZEROX:7 GENERATOR_REGC_LVPL1:8
        GENERATOR_REGC_VOLIM:9 GENERATOR_REGC_LVPNT1:10 GENERATOR_REGC_LVPNT0:11 GENERATOR_REGC_LOLIM:12 GENERATOR_REGC_TFLTR:13 GENERATOR_REGC_KHV:14
        GENERATOR_REGC_IQRMAX:15 GENERATOR_REGC_IQRMIN:16 GENERATOR_REGC_ACCEL:17"""),
    "REGCB1": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_REGC_RATEFLAG:3i GENERATOR_REGC_PQFLAG:4i GENERATOR_REGC_TG:5 GENERATOR_REGC_TFLTR:6 GENERATOR_REGC_IQRMAX:7 GENERATOR_REGC_IQRMIN:8
        GENERATOR_REGC_RRPWR:9 GENERATOR_REGC_TE:10 GENERATOR_REGC_IMAX:11"""),
    "REGCC1": ("gen", "GENERATOR_MODEL", None,
        """GENERATOR_REGC_RATEFLAG:3i GENERATOR_REGC_PQFLAG:4i GENERATOR_REGC_TG:5 GENERATOR_REGC_TFLTR:6 GENERATOR_REGC_IQRMAX:7 GENERATOR_REGC_IQRMIN:8
        GENERATOR_REGC_RRPWR:9 GENERATOR_REGC_TE:10 GENERATOR_REGC_IMAX:11 GENERATOR_REGC_KIP:12 GENERATOR_REGC_KII:13 GENERATOR_REGC_KPPLL:14
        GENERATOR_REGC_KIPLL:15 GENERATOR_REGC_WMAX:16 GENERATOR_REGC_WMIN:17"""),
    "REPCA1": ("gen", "PLANT_CONTROLLER_MODEL", 'HAS_PLANT_CONTROLLER',
        """GENERATOR_REPCA_IREG:3i GENERATOR_REPCA_BRCH_BUS_FROM:4i GENERATOR_REPCA_BRCH_BUS_TO:5i GENERATOR_REPCA_BRCH_CKT:6q GENERATOR_REPCA_VC_FLAG:7i
        GENERATOR_REPCA_REF_FLAG:8i GENERATOR_REPCA_F_FLAG:9i GENERATOR_REPCA_TFLTR:10 GENERATOR_REPCA_KP:11 GENERATOR_REPCA_KI:12 GENERATOR_REPCA_TFT:13
        GENERATOR_REPCA_TFV:14 GENERATOR_REPCA_VFRZ:15 GENERATOR_REPCA_RC:16 GENERATOR_REPCA_XC:17 GENERATOR_REPCA_KC:18 GENERATOR_REPCA_EMAX:19
        GENERATOR_REPCA_EMIN:20 GENERATOR_REPCA_DBD1:21 GENERATOR_REPCA_DBD2:22 GENERATOR_REPCA_QMAX:23 GENERATOR_REPCA_QMIN:24 GENERATOR_REPCA_KPG:25
        GENERATOR_REPCA_KIG:26 GENERATOR_REPCA_TP:27 GENERATOR_REPCA_FDBD1:28 GENERATOR_REPCA_FDBD2:29 GENERATOR_REPCA_FEMAX:30 GENERATOR_REPCA_FEMIN:31
        GENERATOR_REPCA_PMAX:32 GENERATOR_REPCA_PMIN:33 GENERATOR_REPCA_TG:34 GENERATOR_REPCA_DDN:35 GENERATOR_REPCA_DUP:36"""),
    "SEXS": ("gen", "EXCITER_MODEL", 'HAS_EXCITER',
        """EXCITER_TA_OVER_TB:3 EXCITER_TB:4 EXCITER_K:5 EXCITER_TE:6 EXCITER_EMIN:7 EXCITER_EMAX:8"""),
    "TGOV1": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_R:3 GOVERNOR_T1:4 GOVERNOR_VMAX:5 GOVERNOR_VMIN:6 GOVERNOR_T2:7 GOVERNOR_T3:8 GOVERNOR_DT:9"""),
    "WSHYGP": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_DB1:3 GOVERNOR_ERR:4 GOVERNOR_TD:5 GOVERNOR_KI:6 GOVERNOR_TF:7 GOVERNOR_KD:8 GOVERNOR_KP:9 GOVERNOR_R:10 GOVERNOR_TT:11 GOVERNOR_KG:12
        GOVERNOR_TP:13 GOVERNOR_VELOPEN:14 GOVERNOR_VELCLOSE:15 GOVERNOR_PMAX:16 GOVERNOR_PMIN:17 GOVERNOR_DB2:18 GOVERNOR_GV1:19 GOVERNOR_PGV1:20
        GOVERNOR_GV2:21 GOVERNOR_PGV2:22 GOVERNOR_GV3:23 GOVERNOR_PGV3:24 GOVERNOR_GV4:25 GOVERNOR_PGV4:26 GOVERNOR_GV5:27 GOVERNOR_PGV5:28 GOVERNOR_ATURB:29
        GOVERNOR_BTURB:30 GOVERNOR_TTURB:31 GOVERNOR_TRATE:32"""),
    "WSIEG1": ("gen", "GOVERNOR_MODEL", 'HAS_GOVERNOR',
        """GOVERNOR_JBUS:3i GOVERNOR_M:4i GOVERNOR_K:5 GOVERNOR_T1:6 GOVERNOR_T2:7 GOVERNOR_T3:8 GOVERNOR_UO:9 GOVERNOR_UC:10 GOVERNOR_PMAX:11 GOVERNOR_PMIN:12
        GOVERNOR_T4:13 GOVERNOR_K1:14 GOVERNOR_K2:15 GOVERNOR_T5:16 GOVERNOR_K3:17 GOVERNOR_K4:18 GOVERNOR_T6:19 GOVERNOR_K5:20 GOVERNOR_K6:21 GOVERNOR_T7:22
        GOVERNOR_K7:23 GOVERNOR_K8:24 GOVERNOR_DB1:25 GOVERNOR_ERR:26 GOVERNOR_DB2:27 GOVERNOR_GV1:28 GOVERNOR_PGV1:29 GOVERNOR_GV2:30 GOVERNOR_PGV2:31
        GOVERNOR_GV3:32 GOVERNOR_PGV3:33 GOVERNOR_GV4:34 GOVERNOR_PGV4:35 GOVERNOR_GV5:36 GOVERNOR_PGV5:37 GOVERNOR_IBLOCK:38i"""),
    "WTARA1": ("gen", "WIND_AERODYNAMIC", 'HAS_WIND_AERODYNAMIC',
        """WIND_AD_KA:3 WIND_AD_THETA:4"""),
    "WTDTA1": ("gen", "WIND_DRIVETRAIN", 'HAS_WIND_DRIVETRAIN',
        """WIND_DT_H:3 WIND_DT_DAMP:4 WIND_DT_HFRAC:5 WIND_DT_FREQ1:6 WIND_DT_DSHAFT:7"""),
    "WTPTA1": ("gen", "WIND_PITCHCONTROL", 'HAS_WIND_PITCHCONTROL',
        """WIND_PC_KIW:3 WIND_PC_KPW:4 WIND_PC_KIC:5 WIND_PC_KPC:6 WIND_PC_KCC:7 WIND_PC_TP:8 WIND_PC_THETAMAX:9 WIND_PC_THETAMIN:10 WIND_PC_RTHETAMAX:11
        WIND_PC_RTHETAMIN:12"""),
    "WTTQA1": ("gen", "WIND_TORQUECONTROL", 'HAS_WIND_TORQUECONTROL',
        """WIND_TC_TFLAG:3i WIND_TC_KPP:4 WIND_TC_KIP:5 WIND_TC_TP:6 WIND_TC_TWREF:7 WIND_TC_TEMAX:8 WIND_TC_TEMIN:9 WIND_TC_P1:10 WIND_TC_SPD1:11 WIND_TC_P2:12
        WIND_TC_SPD2:13 WIND_TC_P3:14 WIND_TC_SPD3:15 WIND_TC_P4:16 WIND_TC_SPD4:17 WIND_TC_TRATE:18"""),
}
for alias, of in (("EXDC2", "EXDC1"), ("REPCTA1", "REPCA1")):
    MODELS[alias] = MODELS[of]


def fields(model):
    """[(key, column, type)]"""
    out = []
    for w in MODELS[model][3].split():
        k, c = w.split(":")
        t = c[-1] if c[-1].isalpha() else "d"
        out.append((k, int(c.rstrip("iq")), t))
    return out
