"""TPM 2.0 library specification, part 2: command codes (table 12, revision 1.16) and response codes (table 16)."""
COMMANDS = {
    "TPM_CC_NV_UndefineSpaceSpecial": 0x11F, "TPM_CC_EvictControl": 0x120, "TPM_CC_HierarchyControl": 0x121, "TPM_CC_NV_UndefineSpace": 0x122, "TPM_CC_ChangeEPS": 0x124,
    "TPM_CC_ChangePPS": 0x125, "TPM_CC_Clear": 0x126, "TPM_CC_ClearControl": 0x127, "TPM_CC_ClockSet": 0x128, "TPM_CC_HierarchyChangeAuth": 0x129, "TPM_CC_NV_DefineSpace": 0x12A,
    "TPM_CC_PCR_Allocate": 0x12B, "TPM_CC_PCR_SetAuthPolicy": 0x12C, "TPM_CC_PP_Commands": 0x12D, "TPM_CC_SetPrimaryPolicy": 0x12E, "TPM_CC_FieldUpgradeStart": 0x12F,
    "TPM_CC_ClockRateAdjust": 0x130, "TPM_CC_CreatePrimary": 0x131, "TPM_CC_NV_GlobalWriteLock": 0x132, "TPM_CC_GetCommandAuditDigest": 0x133, "TPM_CC_NV_Increment": 0x134,
    "TPM_CC_NV_SetBits": 0x135, "TPM_CC_NV_Extend": 0x136, "TPM_CC_NV_Write": 0x137, "TPM_CC_NV_WriteLock": 0x138, "TPM_CC_DictionaryAttackLockReset": 0x139,
    "TPM_CC_DictionaryAttackParameters": 0x13A, "TPM_CC_NV_ChangeAuth": 0x13B, "TPM_CC_PCR_Event": 0x13C, "TPM_CC_PCR_Reset": 0x13D, "TPM_CC_SequenceComplete": 0x13E,
    "TPM_CC_SetAlgorithmSet": 0x13F, "TPM_CC_SetCommandCodeAuditStatus": 0x140, "TPM_CC_FieldUpgradeData": 0x141, "TPM_CC_IncrementalSelfTest": 0x142, "TPM_CC_SelfTest": 0x143,
    "TPM_CC_Startup": 0x144, "TPM_CC_Shutdown": 0x145, "TPM_CC_StirRandom": 0x146, "TPM_CC_ActivateCredential": 0x147, "TPM_CC_Certify": 0x148, "TPM_CC_PolicyNV": 0x149,
    "TPM_CC_CertifyCreation": 0x14A, "TPM_CC_Duplicate": 0x14B, "TPM_CC_GetTime": 0x14C, "TPM_CC_GetSessionAuditDigest": 0x14D, "TPM_CC_NV_Read": 0x14E, "TPM_CC_NV_ReadLock": 0x14F,
    "TPM_CC_ObjectChangeAuth": 0x150, "TPM_CC_PolicySecret": 0x151, "TPM_CC_Rewrap": 0x152, "TPM_CC_Create": 0x153, "TPM_CC_ECDH_ZGen": 0x154, "TPM_CC_HMAC": 0x155,
    "TPM_CC_Import": 0x156, "TPM_CC_Load": 0x157, "TPM_CC_Quote": 0x158, "TPM_CC_RSA_Decrypt": 0x159, "TPM_CC_HMAC_Start": 0x15B, "TPM_CC_SequenceUpdate": 0x15C, "TPM_CC_Sign": 0x15D,
    "TPM_CC_Unseal": 0x15E, "TPM_CC_PolicySigned": 0x160, "TPM_CC_ContextLoad": 0x161, "TPM_CC_ContextSave": 0x162, "TPM_CC_ECDH_KeyGen": 0x163, "TPM_CC_EncryptDecrypt": 0x164,
    "TPM_CC_FlushContext": 0x165, "TPM_CC_LoadExternal": 0x167, "TPM_CC_MakeCredential": 0x168, "TPM_CC_NV_ReadPublic": 0x169, "TPM_CC_PolicyAuthorize": 0x16A,
    "TPM_CC_PolicyAuthValue": 0x16B, "TPM_CC_PolicyCommandCode": 0x16C, "TPM_CC_PolicyCounterTimer": 0x16D, "TPM_CC_PolicyCpHash": 0x16E, "TPM_CC_PolicyLocality": 0x16F,
    "TPM_CC_PolicyNameHash": 0x170, "TPM_CC_PolicyOR": 0x171, "TPM_CC_PolicyTicket": 0x172, "TPM_CC_ReadPublic": 0x173, "TPM_CC_RSA_Encrypt": 0x174, "TPM_CC_StartAuthSession": 0x176,
    "TPM_CC_VerifySignature": 0x177, "TPM_CC_ECC_Parameters": 0x178, "TPM_CC_FirmwareRead": 0x179, "TPM_CC_GetCapability": 0x17A, "TPM_CC_GetRandom": 0x17B,
    "TPM_CC_GetTestResult": 0x17C, "TPM_CC_Hash": 0x17D, "TPM_CC_PCR_Read": 0x17E, "TPM_CC_PolicyPCR": 0x17F, "TPM_CC_PolicyRestart": 0x180, "TPM_CC_ReadClock": 0x181,
    "TPM_CC_PCR_Extend": 0x182, "TPM_CC_PCR_SetAuthValue": 0x183, "TPM_CC_NV_Certify": 0x184, "TPM_CC_EventSequenceComplete": 0x185, "TPM_CC_HashSequenceStart": 0x186,
    "TPM_CC_PolicyPhysicalPresence": 0x187, "TPM_CC_PolicyDuplicationSelect": 0x188, "TPM_CC_PolicyGetDigest": 0x189, "TPM_CC_TestParms": 0x18A, "TPM_CC_Commit": 0x18B,
    "TPM_CC_PolicyPassword": 0x18C, "TPM_CC_ZGen_2Phase": 0x18D, "TPM_CC_EC_Ephemeral": 0x18E,
}
GENERIC = {
    0x00: "INITIALIZE", 0x01: "FAILURE", 0x03: "SEQUENCE", 0x0B: "PRIVATE", 0x19: "HMAC", 0x20: "DISABLED",
    0x21: "EXCLUSIVE", 0x24: "AUTH_TYPE", 0x25: "AUTH_MISSING", 0x26: "POLICY", 0x27: "PCR", 0x28: "PCR_CHANGED",
    0x2D: "UPGRADE", 0x2E: "TOO_MANY_CONTEXTS", 0x2F: "AUTH_UNAVAILABLE", 0x30: "REBOOT", 0x31: "UNBALANCED", 0x42: "COMMAND_SIZE",
    0x43: "COMMAND_CODE", 0x44: "AUTHSIZE", 0x45: "AUTH_CONTEXT", 0x46: "NV_RANGE", 0x47: "NV_SIZE", 0x48: "NV_LOCKED",
    0x49: "NV_AUTHORIZATION", 0x4A: "NV_UNINITIALIZED", 0x4B: "NV_SPACE", 0x4C: "NV_DEFINED", 0x50: "BAD_CONTEXT", 0x51: "CPHASH",
    0x52: "PARENT", 0x53: "NEEDS_TEST", 0x54: "NO_RESULT", 0x55: "SENSITIVE",
}
FORMAT_ONE = {
    0x01: "ASYMMETRIC", 0x02: "ATTRIBUTES", 0x03: "HASH", 0x04: "VALUE", 0x05: "HIERARCHY", 0x07: "KEY_SIZE",
    0x08: "MGF", 0x09: "MODE", 0x0A: "TYPE", 0x0B: "HANDLE", 0x0C: "KDF", 0x0D: "RANGE",
    0x0E: "AUTH_FAIL", 0x0F: "NONCE", 0x10: "PP", 0x12: "SCHEME", 0x15: "SIZE", 0x16: "SYMMETRIC",
    0x17: "TAG", 0x18: "SELECTOR", 0x1A: "INSUFFICIENT", 0x1B: "SIGNATURE", 0x1C: "KEY", 0x1D: "POLICY_FAIL",
    0x1F: "INTEGRITY", 0x20: "TICKET", 0x21: "RESERVED_BITS", 0x22: "BAD_AUTH", 0x23: "EXPIRED", 0x24: "POLICY_CC",
    0x25: "BINDING", 0x26: "CURVE", 0x27: "ECC_POINT",
}
WARNINGS = {
    0x01: "CONTEXT_GAP", 0x02: "OBJECT_MEMORY", 0x03: "SESSION_MEMORY", 0x04: "MEMORY", 0x05: "SESSION_HANDLES", 0x06: "OBJECT_HANDLES",
    0x07: "LOCALITY", 0x08: "YIELDED", 0x09: "CANCELED", 0x0A: "TESTING", 0x10: "REFERENCE_H0", 0x11: "REFERENCE_H1",
    0x12: "REFERENCE_H2", 0x13: "REFERENCE_H3", 0x14: "REFERENCE_H4", 0x15: "REFERENCE_H5", 0x16: "REFERENCE_H6", 0x18: "REFERENCE_S0",
    0x19: "REFERENCE_S1", 0x1A: "REFERENCE_S2", 0x1B: "REFERENCE_S3", 0x1C: "REFERENCE_S4", 0x1D: "REFERENCE_S5", 0x1E: "REFERENCE_S6",
    0x20: "NV_RATE", 0x21: "LOCKOUT", 0x22: "RETRY", 0x23: "NV_UNAVAILABLE",
}
CONSTANTS = {  # tables 9 (TPM_ALG_ID), 19 (TPM_ST), 20 (TPM_SU), 21 (TPM_SE), 28 (TPM_RH)
    "TPM_ALG_ERROR": 0x0, "TPM_ALG_FIRST": 0x1, "TPM_ALG_RSA": 0x1, "TPM_ALG_SHA": 0x4, "TPM_ALG_SHA1": 0x4, "TPM_ALG_HMAC": 0x5, "TPM_ALG_AES": 0x6,
    "TPM_ALG_MGF1": 0x7, "TPM_ALG_KEYEDHASH": 0x8, "TPM_ALG_XOR": 0xA, "TPM_ALG_SHA256": 0xB, "TPM_ALG_SHA384": 0xC, "TPM_ALG_SHA512": 0xD,
    "TPM_ALG_NULL": 0x10, "TPM_ALG_SM3_256": 0x12, "TPM_ALG_SM4": 0x13, "TPM_ALG_RSASSA": 0x14, "TPM_ALG_RSAES": 0x15, "TPM_ALG_RSAPSS": 0x16,
    "TPM_ALG_OAEP": 0x17, "TPM_ALG_ECDSA": 0x18, "TPM_ALG_ECDH": 0x19, "TPM_ALG_ECDAA": 0x1A, "TPM_ALG_SM2": 0x1B, "TPM_ALG_ECSCHNORR": 0x1C,
    "TPM_ALG_ECMQV": 0x1D, "TPM_ALG_KDF2": 0x21, "TPM_ALG_KDF1_SP800_108": 0x22, "TPM_ALG_ECC": 0x23, "TPM_ALG_SYMCIPHER": 0x25, "TPM_ALG_CTR": 0x40,
    "TPM_ALG_OFB": 0x41, "TPM_ALG_CBC": 0x42, "TPM_ALG_CFB": 0x43, "TPM_ALG_ECB": 0x44, "TPM_ALG_LAST": 0x44,
    "TPM_ST_RSP_COMMAND": 0xC4, "TPM_ST_NULL": 0x8000, "TPM_ST_NO_SESSIONS": 0x8001, "TPM_ST_SESSIONS": 0x8002, "TPM_ST_ATTEST_NV": 0x8014,
    "TPM_ST_ATTEST_COMMAND_AUDIT": 0x8015, "TPM_ST_ATTEST_SESSION_AUDIT": 0x8016, "TPM_ST_ATTEST_CERTIFY": 0x8017, "TPM_ST_ATTEST_QUOTE": 0x8018,
    "TPM_ST_ATTEST_TIME": 0x8019, "TPM_ST_ATTEST_CREATION": 0x801A, "TPM_ST_CREATION": 0x8021, "TPM_ST_VERIFIED": 0x8022, "TPM_ST_AUTH_SECRET": 0x8023,
    "TPM_ST_HASHCHECK": 0x8024, "TPM_ST_AUTH_SIGNED": 0x8025, "TPM_ST_FU_MANIFEST": 0x8029,
    "TPM_SU_CLEAR": 0, "TPM_SU_STATE": 1, "TPM_SE_HMAC": 0, "TPM_SE_POLICY": 1, "TPM_SE_TRIAL": 3,
    "TPM_RH_FIRST": 0x40000000, "TPM_RH_SRK": 0x40000000, "TPM_RH_OWNER": 0x40000001, "TPM_RH_REVOKE": 0x40000002, "TPM_RH_TRANSPORT": 0x40000003,
    "TPM_RH_OPERATOR": 0x40000004, "TPM_RH_ADMIN": 0x40000005, "TPM_RH_EK": 0x40000006, "TPM_RH_NULL": 0x40000007, "TPM_RH_UNASSIGNED": 0x40000008,
    "TPM_RS_PW": 0x40000009, "TPM_RH_LOCKOUT": 0x4000000A, "TPM_RH_ENDORSEMENT": 0x4000000B, "TPM_RH_PLATFORM": 0x4000000C,
    "TPM_RH_PLATFORM_NV": 0x4000000D, "TPM_RH_AUTH_00": 0x40000010, "TPM_RH_AUTH_FF": 0x4000010F, "TPM_RH_LAST": 0x4000010F,
    "TPM_CC_FIRST": 0x11F, "TPM_CC_PP_FIRST": 0x11F, "TPM_CC_PP_LAST": 0x132, "TPM_CC_LAST": 0x18E,
}
