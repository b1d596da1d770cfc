// Exported entry points per calling convention (c__ C strings, d__ short strings, n__ string arrays, f__ Fortran callbacks)
extern "C" int c__gdxacronymadd(void *, const char *, const char *, int);
extern "C" int c__gdxacronymcount(void *);
extern "C" int c__gdxacronymgetinfo(void *, int, char *, char *, int *);
extern "C" int c__gdxacronymgetmapping(void *, int, int *, int *, int *);
extern "C" int c__gdxacronymindex(void *, double);
extern "C" int c__gdxacronymname(void *, double, char *);
extern "C" int c__gdxacronymnextnr(void *, int);
extern "C" int c__gdxacronymsetinfo(void *, int, const char *, const char *, int);
extern "C" double c__gdxacronymvalue(void *, int);
extern "C" int c__gdxaddalias(void *, const char *, const char *);
extern "C" int c__gdxaddsettext(void *, const char *, int *);
extern "C" int c__gdxautoconvert(void *, int);
extern "C" int c__gdxclose(void *);
extern "C" int c__gdxdataerrorcount(void *);
extern "C" int c__gdxdataerrorrecord(void *, int, int *, double *);
extern "C" int c__gdxdataerrorrecordx(void *, int, int *, double *);
extern "C" int c__gdxdatareaddone(void *);
extern "C" int c__gdxdatareadfilteredstart(void *, int, const int *, int *);
extern "C" int c__gdxdatareadmap(void *, int, int *, double *, int *);
extern "C" int c__gdxdatareadmapstart(void *, int, int *);
extern "C" int c__gdxdatareadraw(void *, int *, double *, int *);
extern "C" int c__gdxdatareadrawfast(void *, int, CbStore, int *);
extern "C" int c__gdxdatareadrawfastex(void *, int, CbEx, int *, void *);
extern "C" int c__gdxdatareadrawfastfilt(void *, int, const char **, CbFilt);
extern "C" int c__gdxdatareadrawstart(void *, int, int *);
extern "C" int c__gdxdatareadslice(void *, const char **, int *, CbStore);
extern "C" int c__gdxdatareadslicestart(void *, int, int *);
extern "C" int c__gdxdatareadstr(void *, char **, double *, int *);
extern "C" int c__gdxdatareadstrstart(void *, int, int *);
extern "C" int c__gdxdatasliceuels(void *, const int *, char **);
extern "C" int c__gdxdatawritedone(void *);
extern "C" int c__gdxdatawritemap(void *, const int *, const double *);
extern "C" int c__gdxdatawritemapstart(void *, const char *, const char *, int, int, int);
extern "C" int c__gdxdatawriteraw(void *, const int *, const double *);
extern "C" int c__gdxdatawriterawstart(void *, const char *, const char *, int, int, int);
extern "C" int c__gdxdatawriterawstartkeybounds(void *, const char *, const char *, int, int, int, const int *, const int *);
extern "C" int c__gdxdatawritestr(void *, const char **, const double *);
extern "C" int c__gdxdatawritestrstart(void *, const char *, const char *, int, int, int);
extern "C" int c__gdxgetdllversion(void *, char *);
extern "C" int c__gdxerrorcount(void *);
extern "C" int c__gdxerrorstr(void *, int, char *);
extern "C" int c__gdxfileinfo(void *, int *, int *);
extern "C" int c__gdxfileversion(void *, char *, char *);
extern "C" int c__gdxfilterexists(void *, int);
extern "C" int c__gdxfilterregister(void *, int);
extern "C" int c__gdxfilterregisterdone(void *);
extern "C" int c__gdxfilterregisterstart(void *, int);
extern "C" int c__gdxfindsymbol(void *, const char *, int *);
extern "C" int c__gdxgetelemtext(void *, int, char *, int *);
extern "C" int c__gdxgetlasterror(void *);
extern "C" long c__gdxgetmemoryused(void *);
extern "C" int c__gdxgetspecialvalues(void *, double *);
extern "C" int c__gdxgetuel(void *, int, char *);
extern "C" int c__gdxmapvalue(void *, double, int *);
extern "C" int c__gdxopenappend(void *, const char *, const char *, int *);
extern "C" int c__gdxopenread(void *, const char *, int *);
extern "C" int c__gdxopenreadex(void *, const char *, int, int *);
extern "C" int c__gdxopenwrite(void *, const char *, const char *, int *);
extern "C" int c__gdxopenwriteex(void *, const char *, const char *, int, int *);
extern "C" int c__gdxresetspecialvalues(void *);
extern "C" int c__gdxsethastext(void *, int);
extern "C" int c__gdxsetreadspecialvalues(void *, const double *);
extern "C" int c__gdxsetspecialvalues(void *, const double *);
extern "C" int c__gdxsettextnodenr(void *, int, int);
extern "C" int c__gdxsettracelevel(void *, int, const char *);
extern "C" int c__gdxsymbindxmaxlength(void *, int, int *);
extern "C" int c__gdxsymbmaxlength(void *);
extern "C" int c__gdxsymboladdcomment(void *, int, const char *);
extern "C" int c__gdxsymbolgetcomment(void *, int, int, char *);
extern "C" int c__gdxsymbolgetdomain(void *, int, int *);
extern "C" int c__gdxsymbolgetdomainx(void *, int, char **);
extern "C" int c__gdxsymboldim(void *, int);
extern "C" int c__gdxsymbolinfo(void *, int, char *, int *, int *);
extern "C" int c__gdxsymbolinfox(void *, int, int *, int *, char *);
extern "C" int c__gdxsymbolsetdomain(void *, const char **);
extern "C" int c__gdxsymbolsetdomainx(void *, int, const char **);
extern "C" int c__gdxsysteminfo(void *, int *, int *);
extern "C" int c__gdxuelmaxlength(void *);
extern "C" int c__gdxuelregisterdone(void *);
extern "C" int c__gdxuelregistermap(void *, int, const char *);
extern "C" int c__gdxuelregistermapstart(void *);
extern "C" int c__gdxuelregisterraw(void *, const char *);
extern "C" int c__gdxuelregisterrawstart(void *);
extern "C" int c__gdxuelregisterstr(void *, const char *, int *);
extern "C" int c__gdxuelregisterstrstart(void *);
extern "C" int c__gdxumfinduel(void *, const char *, int *, int *);
extern "C" int c__gdxumuelget(void *, int, char *, int *);
extern "C" int c__gdxumuelinfo(void *, int *, int *);
extern "C" int c__gdxgetdomainelements(void *, int, int, int, CbDom, int *, void *);
extern "C" int c__gdxcurrentdim(void *);
extern "C" int c__gdxrenameuel(void *, const char *, const char *);
extern "C" int c__gdxstoredomainsets(void *);
extern "C" void c__gdxstoredomainsetsset(void *, int);
extern "C" int c__gdxallowbogusdomains(void *);
extern "C" void c__gdxallowbogusdomainsset(void *, int);
extern "C" int c__gdxmapacronymstonan(void *);
extern "C" void c__gdxmapacronymstonanset(void *, int);
extern "C" int d__gdxacronymadd(void *, const char *, const char *, int);
extern "C" int d__gdxacronymgetinfo(void *, int, char *, char *, int *);
extern "C" int d__gdxacronymname(void *, double, char *);
extern "C" int d__gdxacronymsetinfo(void *, int, const char *, const char *, int);
extern "C" int d__gdxaddalias(void *, const char *, const char *);
extern "C" int d__gdxaddsettext(void *, const char *, int *);
extern "C" int d__gdxdatareadrawfastfilt(void *, int, const char *, CbFilt);
extern "C" int d__gdxdatareadslice(void *, const char *, int *, CbStore);
extern "C" int d__gdxdatareadstr(void *, char *, double *, int *);
extern "C" int n__gdxdatareadstr(void *, char (*)[256], double *, int *);
extern "C" int d__gdxdatasliceuels(void *, const int *, char *);
extern "C" int n__gdxdatasliceuels(void *, const int *, char (*)[256]);
extern "C" int d__gdxdatawritemapstart(void *, const char *, const char *, int, int, int);
extern "C" int d__gdxdatawriterawstart(void *, const char *, const char *, int, int, int);
extern "C" int d__gdxdatawriterawstartkeybounds(void *, const char *, const char *, int, int, int, const int *, const int *);
extern "C" int d__gdxdatawritestr(void *, const char *, const double *);
extern "C" int d__gdxdatawritestrstart(void *, const char *, const char *, int, int, int);
extern "C" int d__gdxgetdllversion(void *, char *);
extern "C" int d__gdxerrorstr(void *, int, char *);
extern "C" int d__gdxfileversion(void *, char *, char *);
extern "C" int d__gdxfindsymbol(void *, const char *, int *);
extern "C" int d__gdxgetelemtext(void *, int, char *, int *);
extern "C" int d__gdxgetuel(void *, int, char *);
extern "C" int d__gdxopenappend(void *, const char *, const char *, int *);
extern "C" int d__gdxopenread(void *, const char *, int *);
extern "C" int d__gdxopenreadex(void *, const char *, int, int *);
extern "C" int d__gdxopenwrite(void *, const char *, const char *, int *);
extern "C" int d__gdxopenwriteex(void *, const char *, const char *, int, int *);
extern "C" int d__gdxsettracelevel(void *, int, const char *);
extern "C" int d__gdxsymboladdcomment(void *, int, const char *);
extern "C" int d__gdxsymbolgetcomment(void *, int, int, char *);
extern "C" int d__gdxsymbolgetdomainx(void *, int, char *);
extern "C" int n__gdxsymbolgetdomainx(void *, int, char (*)[256]);
extern "C" int d__gdxsymbolinfo(void *, int, char *, int *, int *);
extern "C" int d__gdxsymbolinfox(void *, int, int *, int *, char *);
extern "C" int d__gdxsymbolsetdomain(void *, const char *);
extern "C" int d__gdxsymbolsetdomainx(void *, int, const char *);
extern "C" int d__gdxuelregistermap(void *, int, const char *);
extern "C" int d__gdxuelregisterraw(void *, const char *);
extern "C" int d__gdxuelregisterstr(void *, const char *, int *);
extern "C" int d__gdxumfinduel(void *, const char *, int *, int *);
extern "C" int d__gdxumuelget(void *, int, char *, int *);
extern "C" int d__gdxrenameuel(void *, const char *, const char *);
struct ExpApi : Api { void *h = nullptr;
   int gdxAcronymAdd(const char *AName, const char *Txt, int AIndx) override { return c__gdxacronymadd(h, AName, Txt, AIndx); }
   int gdxAcronymCount() override { return c__gdxacronymcount(h); }
   int gdxAcronymGetInfo(int N, char *AName, char *Txt, int *AIndx) override { return c__gdxacronymgetinfo(h, N, AName, Txt, AIndx); }
   int gdxAcronymGetMapping(int N, int *orgIndx, int *newIndx, int *autoIndex) override { return c__gdxacronymgetmapping(h, N, orgIndx, newIndx, autoIndex); }
   int gdxAcronymIndex(double V) override { return c__gdxacronymindex(h, V); }
   int gdxAcronymName(double V, char *AName) override { return c__gdxacronymname(h, V, AName); }
   int gdxAcronymNextNr(int NV) override { return c__gdxacronymnextnr(h, NV); }
   int gdxAcronymSetInfo(int N, const char *AName, const char *Txt, int AIndx) override { return c__gdxacronymsetinfo(h, N, AName, Txt, AIndx); }
   double gdxAcronymValue(int AIndx) override { return c__gdxacronymvalue(h, AIndx); }
   int gdxAddAlias(const char *Id1, const char *Id2) override { return c__gdxaddalias(h, Id1, Id2); }
   int gdxAddSetText(const char *Txt, int *TxtNr) override { return c__gdxaddsettext(h, Txt, TxtNr); }
   int gdxAutoConvert(int NV) override { return c__gdxautoconvert(h, NV); }
   int gdxClose() override { return c__gdxclose(h); }
   int gdxDataErrorCount() override { return c__gdxdataerrorcount(h); }
   int gdxDataErrorRecord(int RecNr, int *KeyInt, double *Values) override { return c__gdxdataerrorrecord(h, RecNr, KeyInt, Values); }
   int gdxDataErrorRecordX(int RecNr, int *KeyInt, double *Values) override { return c__gdxdataerrorrecordx(h, RecNr, KeyInt, Values); }
   int gdxDataReadDone() override { return c__gdxdatareaddone(h); }
   int gdxDataReadFilteredStart(int SyNr, const int *FilterAction, int *NrRecs) override { return c__gdxdatareadfilteredstart(h, SyNr, FilterAction, NrRecs); }
   int gdxDataReadMap(int RecNr, int *KeyInt, double *Values, int *DimFrst) override { return c__gdxdatareadmap(h, RecNr, KeyInt, Values, DimFrst); }
   int gdxDataReadMapStart(int SyNr, int *NrRecs) override { return c__gdxdatareadmapstart(h, SyNr, NrRecs); }
   int gdxDataReadRaw(int *KeyInt, double *Values, int *DimFrst) override { return c__gdxdatareadraw(h, KeyInt, Values, DimFrst); }
   int gdxDataReadRawFast(int SyNr, CbStore DP, int *NrRecs) override { return c__gdxdatareadrawfast(h, SyNr, DP, NrRecs); }
   int gdxDataReadRawFastEx(int SyNr, CbEx DP, int *NrRecs, void *Uptr) override { return c__gdxdatareadrawfastex(h, SyNr, DP, NrRecs, Uptr); }
   int gdxDataReadRawFastFilt(int SyNr, const char **UelFilterStr, CbFilt DP) override { return c__gdxdatareadrawfastfilt(h, SyNr, UelFilterStr, DP); }
   int gdxDataReadRawStart(int SyNr, int *NrRecs) override { return c__gdxdatareadrawstart(h, SyNr, NrRecs); }
   int gdxDataReadSlice(const char **UelFilterStr, int *Dimen, CbStore DP) override { return c__gdxdatareadslice(h, UelFilterStr, Dimen, DP); }
   int gdxDataReadSliceStart(int SyNr, int *ElemCounts) override { return c__gdxdatareadslicestart(h, SyNr, ElemCounts); }
   int gdxDataReadStr(char **KeyStr, double *Values, int *DimFrst) override { return c__gdxdatareadstr(h, KeyStr, Values, DimFrst); }
   int gdxDataReadStrStart(int SyNr, int *NrRecs) override { return c__gdxdatareadstrstart(h, SyNr, NrRecs); }
   int gdxDataSliceUELS(const int *SliceKeyInt, char **KeyStr) override { return c__gdxdatasliceuels(h, SliceKeyInt, KeyStr); }
   int gdxDataWriteDone() override { return c__gdxdatawritedone(h); }
   int gdxDataWriteMap(const int *KeyInt, const double *Values) override { return c__gdxdatawritemap(h, KeyInt, Values); }
   int gdxDataWriteMapStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { return c__gdxdatawritemapstart(h, SyId, ExplTxt, Dimen, Typ, UserInfo); }
   int gdxDataWriteRaw(const int *KeyInt, const double *Values) override { return c__gdxdatawriteraw(h, KeyInt, Values); }
   int gdxDataWriteRawStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { return c__gdxdatawriterawstart(h, SyId, ExplTxt, Dimen, Typ, UserInfo); }
   int gdxDataWriteRawStartKeyBounds(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo, const int *MinUELIndices, const int *MaxUELIndices) override { return c__gdxdatawriterawstartkeybounds(h, SyId, ExplTxt, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices); }
   int gdxDataWriteStr(const char **KeyStr, const double *Values) override { return c__gdxdatawritestr(h, KeyStr, Values); }
   int gdxDataWriteStrStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { return c__gdxdatawritestrstart(h, SyId, ExplTxt, Dimen, Typ, UserInfo); }
   int gdxGetDLLVersion(char *V) override { return c__gdxgetdllversion(h, V); }
   int gdxErrorCount() override { return c__gdxerrorcount(h); }
   int gdxErrorStr(int ErrNr, char *ErrMsg) override { return c__gdxerrorstr(h, ErrNr, ErrMsg); }
   int gdxFileInfo(int *FileVer, int *ComprLev) override { return c__gdxfileinfo(h, FileVer, ComprLev); }
   int gdxFileVersion(char *FileStr, char *ProduceStr) override { return c__gdxfileversion(h, FileStr, ProduceStr); }
   int gdxFilterExists(int FilterNr) override { return c__gdxfilterexists(h, FilterNr); }
   int gdxFilterRegister(int UelMap) override { return c__gdxfilterregister(h, UelMap); }
   int gdxFilterRegisterDone() override { return c__gdxfilterregisterdone(h); }
   int gdxFilterRegisterStart(int FilterNr) override { return c__gdxfilterregisterstart(h, FilterNr); }
   int gdxFindSymbol(const char *SyId, int *SyNr) override { return c__gdxfindsymbol(h, SyId, SyNr); }
   int gdxGetElemText(int TxtNr, char *Txt, int *Node) override { return c__gdxgetelemtext(h, TxtNr, Txt, Node); }
   int gdxGetLastError() override { return c__gdxgetlasterror(h); }
   long gdxGetMemoryUsed() override { return c__gdxgetmemoryused(h); }
   int gdxGetSpecialValues(double *AVals) override { return c__gdxgetspecialvalues(h, AVals); }
   int gdxGetUEL(int UelNr, char *Uel) override { return c__gdxgetuel(h, UelNr, Uel); }
   int gdxMapValue(double D, int *sv) override { return c__gdxmapvalue(h, D, sv); }
   int gdxOpenAppend(const char *FileName, const char *Producer, int *ErrNr) override { return c__gdxopenappend(h, FileName, Producer, ErrNr); }
   int gdxOpenRead(const char *FileName, int *ErrNr) override { return c__gdxopenread(h, FileName, ErrNr); }
   int gdxOpenReadEx(const char *FileName, int ReadMode, int *ErrNr) override { return c__gdxopenreadex(h, FileName, ReadMode, ErrNr); }
   int gdxOpenWrite(const char *FileName, const char *Producer, int *ErrNr) override { return c__gdxopenwrite(h, FileName, Producer, ErrNr); }
   int gdxOpenWriteEx(const char *FileName, const char *Producer, int Compr, int *ErrNr) override { return c__gdxopenwriteex(h, FileName, Producer, Compr, ErrNr); }
   int gdxResetSpecialValues() override { return c__gdxresetspecialvalues(h); }
   int gdxSetHasText(int SyNr) override { return c__gdxsethastext(h, SyNr); }
   int gdxSetReadSpecialValues(const double *AVals) override { return c__gdxsetreadspecialvalues(h, AVals); }
   int gdxSetSpecialValues(const double *AVals) override { return c__gdxsetspecialvalues(h, AVals); }
   int gdxSetTextNodeNr(int TxtNr, int Node) override { return c__gdxsettextnodenr(h, TxtNr, Node); }
   int gdxSetTraceLevel(int N, const char *s) override { return c__gdxsettracelevel(h, N, s); }
   int gdxSymbIndxMaxLength(int SyNr, int *LengthInfo) override { return c__gdxsymbindxmaxlength(h, SyNr, LengthInfo); }
   int gdxSymbMaxLength() override { return c__gdxsymbmaxlength(h); }
   int gdxSymbolAddComment(int SyNr, const char *Txt) override { return c__gdxsymboladdcomment(h, SyNr, Txt); }
   int gdxSymbolGetComment(int SyNr, int N, char *Txt) override { return c__gdxsymbolgetcomment(h, SyNr, N, Txt); }
   int gdxSymbolGetDomain(int SyNr, int *DomainSyNrs) override { return c__gdxsymbolgetdomain(h, SyNr, DomainSyNrs); }
   int gdxSymbolGetDomainX(int SyNr, char **DomainIDs) override { return c__gdxsymbolgetdomainx(h, SyNr, DomainIDs); }
   int gdxSymbolDim(int SyNr) override { return c__gdxsymboldim(h, SyNr); }
   int gdxSymbolInfo(int SyNr, char *SyId, int *Dimen, int *Typ) override { return c__gdxsymbolinfo(h, SyNr, SyId, Dimen, Typ); }
   int gdxSymbolInfoX(int SyNr, int *RecCnt, int *UserInfo, char *ExplTxt) override { return c__gdxsymbolinfox(h, SyNr, RecCnt, UserInfo, ExplTxt); }
   int gdxSymbolSetDomain(const char **DomainIDs) override { return c__gdxsymbolsetdomain(h, DomainIDs); }
   int gdxSymbolSetDomainX(int SyNr, const char **DomainIDs) override { return c__gdxsymbolsetdomainx(h, SyNr, DomainIDs); }
   int gdxSystemInfo(int *SyCnt, int *UelCnt) override { return c__gdxsysteminfo(h, SyCnt, UelCnt); }
   int gdxUELMaxLength() override { return c__gdxuelmaxlength(h); }
   int gdxUELRegisterDone() override { return c__gdxuelregisterdone(h); }
   int gdxUELRegisterMap(int UMap, const char *Uel) override { return c__gdxuelregistermap(h, UMap, Uel); }
   int gdxUELRegisterMapStart() override { return c__gdxuelregistermapstart(h); }
   int gdxUELRegisterRaw(const char *Uel) override { return c__gdxuelregisterraw(h, Uel); }
   int gdxUELRegisterRawStart() override { return c__gdxuelregisterrawstart(h); }
   int gdxUELRegisterStr(const char *Uel, int *UelNr) override { return c__gdxuelregisterstr(h, Uel, UelNr); }
   int gdxUELRegisterStrStart() override { return c__gdxuelregisterstrstart(h); }
   int gdxUMFindUEL(const char *Uel, int *UelNr, int *UelMap) override { return c__gdxumfinduel(h, Uel, UelNr, UelMap); }
   int gdxUMUelGet(int UelNr, char *Uel, int *UelMap) override { return c__gdxumuelget(h, UelNr, Uel, UelMap); }
   int gdxUMUelInfo(int *UelCnt, int *HighMap) override { return c__gdxumuelinfo(h, UelCnt, HighMap); }
   int gdxGetDomainElements(int SyNr, int DimPos, int FilterNr, CbDom DP, int *NrElem, void *Uptr) override { return c__gdxgetdomainelements(h, SyNr, DimPos, FilterNr, DP, NrElem, Uptr); }
   int gdxCurrentDim() override { return c__gdxcurrentdim(h); }
   int gdxRenameUEL(const char *OldName, const char *NewName) override { return c__gdxrenameuel(h, OldName, NewName); }
   int gdxStoreDomainSets() override { return c__gdxstoredomainsets(h); }
   void gdxStoreDomainSetsSet(int flag) override { return c__gdxstoredomainsetsset(h, flag); }
   int gdxAllowBogusDomains() override { return c__gdxallowbogusdomains(h); }
   void gdxAllowBogusDomainsSet(int flag) override { return c__gdxallowbogusdomainsset(h, flag); }
   int gdxMapAcronymsToNaN() override { return c__gdxmapacronymstonan(h); }
   void gdxMapAcronymsToNaNSet(int flag) override { return c__gdxmapacronymstonanset(h, flag); }
};
struct PasApi : ExpApi {
   int gdxAcronymAdd(const char *AName, const char *Txt, int AIndx) override { PIn AName_s(AName); PIn Txt_s(Txt); int _r = d__gdxacronymadd(h, AName_s.b, Txt_s.b, AIndx); if (_r) {  } return _r; }
   int gdxAcronymGetInfo(int N, char *AName, char *Txt, int *AIndx) override { POut AName_s; POut Txt_s; int _r = d__gdxacronymgetinfo(h, N, AName_s.b, Txt_s.b, AIndx); if (_r) { AName_s.get(AName); Txt_s.get(Txt); } return _r; }
   int gdxAcronymName(double V, char *AName) override { POut AName_s; int _r = d__gdxacronymname(h, V, AName_s.b); if (_r) { AName_s.get(AName); } return _r; }
   int gdxAcronymSetInfo(int N, const char *AName, const char *Txt, int AIndx) override { PIn AName_s(AName); PIn Txt_s(Txt); int _r = d__gdxacronymsetinfo(h, N, AName_s.b, Txt_s.b, AIndx); if (_r) {  } return _r; }
   int gdxAddAlias(const char *Id1, const char *Id2) override { PIn Id1_s(Id1); PIn Id2_s(Id2); int _r = d__gdxaddalias(h, Id1_s.b, Id2_s.b); if (_r) {  } return _r; }
   int gdxAddSetText(const char *Txt, int *TxtNr) override { PIn Txt_s(Txt); int _r = d__gdxaddsettext(h, Txt_s.b, TxtNr); if (_r) {  } return _r; }
   int gdxDataReadRawFastFilt(int SyNr, const char **UelFilterStr, CbFilt DP) override { int dm = c__gdxsymboldim(h, SyNr); PIn20 UelFilterStr_s(UelFilterStr, dm); int _r = d__gdxdatareadrawfastfilt(h, SyNr, UelFilterStr_s.b, DP); if (_r) {  } return _r; }
   int gdxDataReadSlice(const char **UelFilterStr, int *Dimen, CbStore DP) override { int dm = c__gdxcurrentdim(h); PIn20 UelFilterStr_s(UelFilterStr, dm); int _r = d__gdxdatareadslice(h, UelFilterStr_s.b, Dimen, DP); if (_r) {  } return _r; }
   int gdxDataReadStr(char **KeyStr, double *Values, int *DimFrst) override { int dm = c__gdxcurrentdim(h); POut20 KeyStr_s; int _r = d__gdxdatareadstr(h, KeyStr_s.b, Values, DimFrst); if (_r) { KeyStr_s.get(KeyStr, dm); } return _r; }
   int gdxDataSliceUELS(const int *SliceKeyInt, char **KeyStr) override { int dm = c__gdxcurrentdim(h); POut20 KeyStr_s; int _r = d__gdxdatasliceuels(h, SliceKeyInt, KeyStr_s.b); if (_r) { KeyStr_s.get(KeyStr, dm); } return _r; }
   int gdxDataWriteMapStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { PIn SyId_s(SyId); PIn ExplTxt_s(ExplTxt); int _r = d__gdxdatawritemapstart(h, SyId_s.b, ExplTxt_s.b, Dimen, Typ, UserInfo); if (_r) {  } return _r; }
   int gdxDataWriteRawStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { PIn SyId_s(SyId); PIn ExplTxt_s(ExplTxt); int _r = d__gdxdatawriterawstart(h, SyId_s.b, ExplTxt_s.b, Dimen, Typ, UserInfo); if (_r) {  } return _r; }
   int gdxDataWriteRawStartKeyBounds(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo, const int *MinUELIndices, const int *MaxUELIndices) override { PIn SyId_s(SyId); PIn ExplTxt_s(ExplTxt); int _r = d__gdxdatawriterawstartkeybounds(h, SyId_s.b, ExplTxt_s.b, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices); if (_r) {  } return _r; }
   int gdxDataWriteStr(const char **KeyStr, const double *Values) override { int dm = c__gdxcurrentdim(h); PIn20 KeyStr_s(KeyStr, dm); int _r = d__gdxdatawritestr(h, KeyStr_s.b, Values); if (_r) {  } return _r; }
   int gdxDataWriteStrStart(const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo) override { PIn SyId_s(SyId); PIn ExplTxt_s(ExplTxt); int _r = d__gdxdatawritestrstart(h, SyId_s.b, ExplTxt_s.b, Dimen, Typ, UserInfo); if (_r) {  } return _r; }
   int gdxGetDLLVersion(char *V) override { POut V_s; int _r = d__gdxgetdllversion(h, V_s.b); if (_r) { V_s.get(V); } return _r; }
   int gdxErrorStr(int ErrNr, char *ErrMsg) override { POut ErrMsg_s; int _r = d__gdxerrorstr(h, ErrNr, ErrMsg_s.b); if (_r) { ErrMsg_s.get(ErrMsg); } return _r; }
   int gdxFileVersion(char *FileStr, char *ProduceStr) override { POut FileStr_s; POut ProduceStr_s; int _r = d__gdxfileversion(h, FileStr_s.b, ProduceStr_s.b); if (_r) { FileStr_s.get(FileStr); ProduceStr_s.get(ProduceStr); } return _r; }
   int gdxFindSymbol(const char *SyId, int *SyNr) override { PIn SyId_s(SyId); int _r = d__gdxfindsymbol(h, SyId_s.b, SyNr); if (_r) {  } return _r; }
   int gdxGetElemText(int TxtNr, char *Txt, int *Node) override { POut Txt_s; int _r = d__gdxgetelemtext(h, TxtNr, Txt_s.b, Node); if (_r) { Txt_s.get(Txt); } return _r; }
   int gdxGetUEL(int UelNr, char *Uel) override { POut Uel_s; int _r = d__gdxgetuel(h, UelNr, Uel_s.b); if (_r) { Uel_s.get(Uel); } return _r; }
   int gdxOpenAppend(const char *FileName, const char *Producer, int *ErrNr) override { PIn FileName_s(FileName); PIn Producer_s(Producer); int _r = d__gdxopenappend(h, FileName_s.b, Producer_s.b, ErrNr); if (_r) {  } return _r; }
   int gdxOpenRead(const char *FileName, int *ErrNr) override { PIn FileName_s(FileName); int _r = d__gdxopenread(h, FileName_s.b, ErrNr); if (_r) {  } return _r; }
   int gdxOpenReadEx(const char *FileName, int ReadMode, int *ErrNr) override { PIn FileName_s(FileName); int _r = d__gdxopenreadex(h, FileName_s.b, ReadMode, ErrNr); if (_r) {  } return _r; }
   int gdxOpenWrite(const char *FileName, const char *Producer, int *ErrNr) override { PIn FileName_s(FileName); PIn Producer_s(Producer); int _r = d__gdxopenwrite(h, FileName_s.b, Producer_s.b, ErrNr); if (_r) {  } return _r; }
   int gdxOpenWriteEx(const char *FileName, const char *Producer, int Compr, int *ErrNr) override { PIn FileName_s(FileName); PIn Producer_s(Producer); int _r = d__gdxopenwriteex(h, FileName_s.b, Producer_s.b, Compr, ErrNr); if (_r) {  } return _r; }
   int gdxSetTraceLevel(int N, const char *s) override { PIn s_s(s); int _r = d__gdxsettracelevel(h, N, s_s.b); if (_r) {  } return _r; }
   int gdxSymbolAddComment(int SyNr, const char *Txt) override { PIn Txt_s(Txt); int _r = d__gdxsymboladdcomment(h, SyNr, Txt_s.b); if (_r) {  } return _r; }
   int gdxSymbolGetComment(int SyNr, int N, char *Txt) override { POut Txt_s; int _r = d__gdxsymbolgetcomment(h, SyNr, N, Txt_s.b); if (_r) { Txt_s.get(Txt); } return _r; }
   int gdxSymbolGetDomainX(int SyNr, char **DomainIDs) override { int dm = c__gdxsymboldim(h, SyNr); POut20 DomainIDs_s; int _r = d__gdxsymbolgetdomainx(h, SyNr, DomainIDs_s.b); if (_r) { DomainIDs_s.get(DomainIDs, dm); } return _r; }
   int gdxSymbolInfo(int SyNr, char *SyId, int *Dimen, int *Typ) override { POut SyId_s; int _r = d__gdxsymbolinfo(h, SyNr, SyId_s.b, Dimen, Typ); if (_r) { SyId_s.get(SyId); } return _r; }
   int gdxSymbolInfoX(int SyNr, int *RecCnt, int *UserInfo, char *ExplTxt) override { POut ExplTxt_s; int _r = d__gdxsymbolinfox(h, SyNr, RecCnt, UserInfo, ExplTxt_s.b); if (_r) { ExplTxt_s.get(ExplTxt); } return _r; }
   int gdxSymbolSetDomain(const char **DomainIDs) override { int dm = c__gdxcurrentdim(h); PIn20 DomainIDs_s(DomainIDs, dm); int _r = d__gdxsymbolsetdomain(h, DomainIDs_s.b); if (_r) {  } return _r; }
   int gdxSymbolSetDomainX(int SyNr, const char **DomainIDs) override { int dm = c__gdxsymboldim(h, SyNr); PIn20 DomainIDs_s(DomainIDs, dm); int _r = d__gdxsymbolsetdomainx(h, SyNr, DomainIDs_s.b); if (_r) {  } return _r; }
   int gdxUELRegisterMap(int UMap, const char *Uel) override { PIn Uel_s(Uel); int _r = d__gdxuelregistermap(h, UMap, Uel_s.b); if (_r) {  } return _r; }
   int gdxUELRegisterRaw(const char *Uel) override { PIn Uel_s(Uel); int _r = d__gdxuelregisterraw(h, Uel_s.b); if (_r) {  } return _r; }
   int gdxUELRegisterStr(const char *Uel, int *UelNr) override { PIn Uel_s(Uel); int _r = d__gdxuelregisterstr(h, Uel_s.b, UelNr); if (_r) {  } return _r; }
   int gdxUMFindUEL(const char *Uel, int *UelNr, int *UelMap) override { PIn Uel_s(Uel); int _r = d__gdxumfinduel(h, Uel_s.b, UelNr, UelMap); if (_r) {  } return _r; }
   int gdxUMUelGet(int UelNr, char *Uel, int *UelMap) override { POut Uel_s; int _r = d__gdxumuelget(h, UelNr, Uel_s.b, UelMap); if (_r) { Uel_s.get(Uel); } return _r; }
   int gdxRenameUEL(const char *OldName, const char *NewName) override { PIn OldName_s(OldName); PIn NewName_s(NewName); int _r = d__gdxrenameuel(h, OldName_s.b, NewName_s.b); if (_r) {  } return _r; }
};
struct NetApi : ExpApi {
   int gdxDataReadStr(char **KeyStr, double *Values, int *DimFrst) override { int dm = c__gdxcurrentdim(h); NOut KeyStr_s; int _r = n__gdxdatareadstr(h, KeyStr_s.b, Values, DimFrst); if (_r) { KeyStr_s.get(KeyStr, dm); } return _r; }
   int gdxDataSliceUELS(const int *SliceKeyInt, char **KeyStr) override { int dm = c__gdxcurrentdim(h); NOut KeyStr_s; int _r = n__gdxdatasliceuels(h, SliceKeyInt, KeyStr_s.b); if (_r) { KeyStr_s.get(KeyStr, dm); } return _r; }
   int gdxSymbolGetDomainX(int SyNr, char **DomainIDs) override { int dm = c__gdxsymboldim(h, SyNr); NOut DomainIDs_s; int _r = n__gdxsymbolgetdomainx(h, SyNr, DomainIDs_s.b); if (_r) { DomainIDs_s.get(DomainIDs, dm); } return _r; }
};
