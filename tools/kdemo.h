/* helpers for the demonstrations: loads the freshly built module, sets up a scratch token */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include "pkcs11.h"
static CK_FUNCTION_LIST_3_2 *F;
static char kdir[256], kconf[512], kinit[600];
static CK_ULONG kslot = 1;
#define SOPIN "so-pin-8765"
#define UPIN "user-pin-1234"
#define U8(s) ((CK_BYTE_PTR)(s))
#define SK(what, rv) do { CK_RV _r = (rv); if (_r != CKR_OK) { fprintf(stderr, "setup failed: %s: 0x%lx (line %d)\n", what, _r, __LINE__); kclean(); exit(3); } } while (0)
#define BAD(...) do { fprintf(stderr, "PROPERTY BROKEN: " __VA_ARGS__); fprintf(stderr, "\n"); kclean(); exit(1); } while (0)
static void kclean(void) {
    char c[400];
    if (kdir[0] && strncmp(kdir, "/tmp/kdemo.", 11) == 0) { snprintf(c, sizeof c, "rm -rf '%s'", kdir); if (system(c)) {} }
}
static void kload(void) {
    void *h = dlopen("/repo/target/debug/libkryoptic_pkcs11.so", RTLD_NOW);
    CK_INTERFACE *i = NULL; CK_VERSION v = {3, 2};
    CK_RV (*gi)(CK_UTF8CHAR *, CK_VERSION *, CK_INTERFACE **, CK_FLAGS);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    gi = dlsym(h, "C_GetInterface");
    if (!gi || gi((CK_UTF8CHAR *)"PKCS 11", &v, &i, 0) != CKR_OK) { fprintf(stderr, "no interface\n"); exit(3); }
    F = i->pFunctionList;
}
static CK_RV kinitialize(void) {
    CK_C_INITIALIZE_ARGS a; memset(&a, 0, sizeof a);
    a.flags = CKF_OS_LOCKING_OK; a.pReserved = kinit;
    return F->C_Initialize(&a);
}
static CK_RV krestart(void) { F->C_Finalize(NULL); return kinitialize(); }
static CK_SESSION_HANDLE kopen(int rw) {
    CK_SESSION_HANDLE s = 0;
    SK("open", F->C_OpenSession(kslot, CKF_SERIAL_SESSION | (rw ? CKF_RW_SESSION : 0), NULL, NULL, &s));
    return s;
}
static CK_RV klogin(CK_SESSION_HANDLE s, CK_USER_TYPE u, const char *pin) { return F->C_Login(s, u, U8(pin), strlen(pin)); }
/* nss != 0: NSS database instead of SQLite */
static void ksetup(int nss) {
    FILE *f; CK_SESSION_HANDLE s; CK_UTF8CHAR label[32];
    strcpy(kdir, "/tmp/kdemo.XXXXXX");
    if (!mkdtemp(kdir)) exit(3);
    snprintf(kconf, sizeof kconf, "%s/k.conf", kdir);
    snprintf(kinit, sizeof kinit, "kryoptic_conf=%s", kconf);
    f = fopen(kconf, "w");
    if (nss) fprintf(f, "[[slots]]\nslot = 1\ndbtype = \"nssdb\"\ndbargs = \"configDir='%s'\"\n", kdir);
    else fprintf(f, "[[slots]]\nslot = 1\ndbtype = \"sqlite\"\ndbargs = \"%s/token.sql\"\n", kdir);
    fclose(f);
    kload();
    SK("initialize", kinitialize());
    memset(label, ' ', 32); memcpy(label, "kdemo", 5);
    SK("init token", F->C_InitToken(kslot, U8(SOPIN), strlen(SOPIN), label));
    s = kopen(1);
    SK("so login", klogin(s, CKU_SO, SOPIN));
    SK("init pin", F->C_InitPIN(s, U8(UPIN), strlen(UPIN)));
    SK("logout", F->C_Logout(s));
    F->C_CloseSession(s);
}
static void kdone(void) { F->C_Finalize(NULL); kclean(); printf("ok\n"); exit(0); }
static CK_BBOOL kT = CK_TRUE, kF = CK_FALSE;
#define AT(t, p, l) { (t), (void *)(p), (CK_ULONG)(l) }
#define ATB(t, b) { (t), (b) ? &kT : &kF, 1 }
#define NEL(a) (sizeof(a) / sizeof((a)[0]))
/* a secret key object usable for everything */
static CK_OBJECT_HANDLE kkey(CK_SESSION_HANDLE s, CK_KEY_TYPE kt, const void *v, CK_ULONG n, int token) {
    CK_OBJECT_CLASS c = CKO_SECRET_KEY; CK_OBJECT_HANDLE h = 0;
    CK_ATTRIBUTE t[] = { AT(CKA_CLASS, &c, sizeof c), AT(CKA_KEY_TYPE, &kt, sizeof kt), AT(CKA_VALUE, v, n), ATB(CKA_TOKEN, token),
        ATB(CKA_ENCRYPT, 1), ATB(CKA_DECRYPT, 1), ATB(CKA_SIGN, 1), ATB(CKA_VERIFY, 1), ATB(CKA_WRAP, 1), ATB(CKA_UNWRAP, 1), ATB(CKA_DERIVE, 1),
        ATB(CKA_SENSITIVE, 0), ATB(CKA_EXTRACTABLE, 1) };
    SK("create key", F->C_CreateObject(s, t, NEL(t), &h));
    return h;
}
