// The functions of the API in one table: FN(result, name, parameters, arguments by reference, handle and arguments by pointer). Derived once from the documented prototypes.
FN(int, gdxAcronymAdd, (const char *AName, const char *Txt, int AIndx), (AName, Txt, AIndx), (h, AName, Txt, AIndx))
FN(int, gdxAcronymCount, (), (), (h))
FN(int, gdxAcronymGetInfo, (int N, char *AName, char *Txt, int *AIndx), (N, AName, Txt, *AIndx), (h, N, AName, Txt, AIndx))
FN(int, gdxAcronymGetMapping, (int N, int *orgIndx, int *newIndx, int *autoIndex), (N, *orgIndx, *newIndx, *autoIndex), (h, N, orgIndx, newIndx, autoIndex))
FN(int, gdxAcronymIndex, (double V), (V), (h, V))
FN(int, gdxAcronymName, (double V, char *AName), (V, AName), (h, V, AName))
FN(int, gdxAcronymNextNr, (int NV), (NV), (h, NV))
FN(int, gdxAcronymSetInfo, (int N, const char *AName, const char *Txt, int AIndx), (N, AName, Txt, AIndx), (h, N, AName, Txt, AIndx))
FN(double, gdxAcronymValue, (int AIndx), (AIndx), (h, AIndx))
FN(int, gdxAddAlias, (const char *Id1, const char *Id2), (Id1, Id2), (h, Id1, Id2))
FN(int, gdxAddSetText, (const char *Txt, int *TxtNr), (Txt, *TxtNr), (h, Txt, TxtNr))
FN(int, gdxAutoConvert, (int NV), (NV), (h, NV))
FN(int, gdxClose, (), (), (h))
FN(int, gdxDataErrorCount, (), (), (h))
FN(int, gdxDataErrorRecord, (int RecNr, int *KeyInt, double *Values), (RecNr, KeyInt, Values), (h, RecNr, KeyInt, Values))
FN(int, gdxDataErrorRecordX, (int RecNr, int *KeyInt, double *Values), (RecNr, KeyInt, Values), (h, RecNr, KeyInt, Values))
FN(int, gdxDataReadDone, (), (), (h))
FN(int, gdxDataReadFilteredStart, (int SyNr, const int *FilterAction, int *NrRecs), (SyNr, FilterAction, *NrRecs), (h, SyNr, FilterAction, NrRecs))
FN(int, gdxDataReadMap, (int RecNr, int *KeyInt, double *Values, int *DimFrst), (RecNr, KeyInt, Values, *DimFrst), (h, RecNr, KeyInt, Values, DimFrst))
FN(int, gdxDataReadMapStart, (int SyNr, int *NrRecs), (SyNr, *NrRecs), (h, SyNr, NrRecs))
FN(int, gdxDataReadRaw, (int *KeyInt, double *Values, int *DimFrst), (KeyInt, Values, *DimFrst), (h, KeyInt, Values, DimFrst))
FN(int, gdxDataReadRawFast, (int SyNr, CbStore DP, int *NrRecs), (SyNr, DP, *NrRecs), (h, SyNr, DP, NrRecs))
FN(int, gdxDataReadRawFastEx, (int SyNr, CbEx DP, int *NrRecs, void *Uptr), (SyNr, DP, *NrRecs, Uptr), (h, SyNr, DP, NrRecs, Uptr))
FN(int, gdxDataReadRawFastFilt, (int SyNr, const char **UelFilterStr, CbFilt DP), (SyNr, UelFilterStr, DP), (h, SyNr, UelFilterStr, DP))
FN(int, gdxDataReadRawStart, (int SyNr, int *NrRecs), (SyNr, *NrRecs), (h, SyNr, NrRecs))
FN(int, gdxDataReadSlice, (const char **UelFilterStr, int *Dimen, CbStore DP), (UelFilterStr, *Dimen, DP), (h, UelFilterStr, Dimen, DP))
FN(int, gdxDataReadSliceStart, (int SyNr, int *ElemCounts), (SyNr, ElemCounts), (h, SyNr, ElemCounts))
FN(int, gdxDataReadStr, (char **KeyStr, double *Values, int *DimFrst), (KeyStr, Values, *DimFrst), (h, KeyStr, Values, DimFrst))
FN(int, gdxDataReadStrStart, (int SyNr, int *NrRecs), (SyNr, *NrRecs), (h, SyNr, NrRecs))
FN(int, gdxDataSliceUELS, (const int *SliceKeyInt, char **KeyStr), (SliceKeyInt, KeyStr), (h, SliceKeyInt, KeyStr))
FN(int, gdxDataWriteDone, (), (), (h))
FN(int, gdxDataWriteMap, (const int *KeyInt, const double *Values), (KeyInt, Values), (h, KeyInt, Values))
FN(int, gdxDataWriteMapStart, (const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo), (SyId, ExplTxt, Dimen, Typ, UserInfo), (h, SyId, ExplTxt, Dimen, Typ, UserInfo))
FN(int, gdxDataWriteRaw, (const int *KeyInt, const double *Values), (KeyInt, Values), (h, KeyInt, Values))
FN(int, gdxDataWriteRawStart, (const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo), (SyId, ExplTxt, Dimen, Typ, UserInfo), (h, SyId, ExplTxt, Dimen, Typ, UserInfo))
FN(int, gdxDataWriteRawStartKeyBounds, (const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo, const int *MinUELIndices, const int *MaxUELIndices), (SyId, ExplTxt, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices), (h, SyId, ExplTxt, Dimen, Typ, UserInfo, MinUELIndices, MaxUELIndices))
FN(int, gdxDataWriteStr, (const char **KeyStr, const double *Values), (KeyStr, Values), (h, KeyStr, Values))
FN(int, gdxDataWriteStrStart, (const char *SyId, const char *ExplTxt, int Dimen, int Typ, int UserInfo), (SyId, ExplTxt, Dimen, Typ, UserInfo), (h, SyId, ExplTxt, Dimen, Typ, UserInfo))
FN(int, gdxGetDLLVersion, (char *V), (V), (h, V))
FN(int, gdxErrorCount, (), (), (h))
FN(int, gdxErrorStr, (int ErrNr, char *ErrMsg), (ErrNr, ErrMsg), (h, ErrNr, ErrMsg))
FN(int, gdxFileInfo, (int *FileVer, int *ComprLev), (*FileVer, *ComprLev), (h, FileVer, ComprLev))
FN(int, gdxFileVersion, (char *FileStr, char *ProduceStr), (FileStr, ProduceStr), (h, FileStr, ProduceStr))
FN(int, gdxFilterExists, (int FilterNr), (FilterNr), (h, FilterNr))
FN(int, gdxFilterRegister, (int UelMap), (UelMap), (h, UelMap))
FN(int, gdxFilterRegisterDone, (), (), (h))
FN(int, gdxFilterRegisterStart, (int FilterNr), (FilterNr), (h, FilterNr))
FN(int, gdxFindSymbol, (const char *SyId, int *SyNr), (SyId, *SyNr), (h, SyId, SyNr))
FN(int, gdxGetElemText, (int TxtNr, char *Txt, int *Node), (TxtNr, Txt, *Node), (h, TxtNr, Txt, Node))
FN(int, gdxGetLastError, (), (), (h))
FN(long, gdxGetMemoryUsed, (), (), (h))
FN(int, gdxGetSpecialValues, (double *AVals), (AVals), (h, AVals))
FN(int, gdxGetUEL, (int UelNr, char *Uel), (UelNr, Uel), (h, UelNr, Uel))
FN(int, gdxMapValue, (double D, int *sv), (D, *sv), (h, D, sv))
FN(int, gdxOpenAppend, (const char *FileName, const char *Producer, int *ErrNr), (FileName, Producer, *ErrNr), (h, FileName, Producer, ErrNr))
FN(int, gdxOpenRead, (const char *FileName, int *ErrNr), (FileName, *ErrNr), (h, FileName, ErrNr))
FN(int, gdxOpenReadEx, (const char *FileName, int ReadMode, int *ErrNr), (FileName, ReadMode, *ErrNr), (h, FileName, ReadMode, ErrNr))
FN(int, gdxOpenWrite, (const char *FileName, const char *Producer, int *ErrNr), (FileName, Producer, *ErrNr), (h, FileName, Producer, ErrNr))
FN(int, gdxOpenWriteEx, (const char *FileName, const char *Producer, int Compr, int *ErrNr), (FileName, Producer, Compr, *ErrNr), (h, FileName, Producer, Compr, ErrNr))
FN(int, gdxResetSpecialValues, (), (), (h))
FN(int, gdxSetHasText, (int SyNr), (SyNr), (h, SyNr))
FN(int, gdxSetReadSpecialValues, (const double *AVals), (AVals), (h, AVals))
FN(int, gdxSetSpecialValues, (const double *AVals), (AVals), (h, AVals))
FN(int, gdxSetTextNodeNr, (int TxtNr, int Node), (TxtNr, Node), (h, TxtNr, Node))
FN(int, gdxSetTraceLevel, (int N, const char *s), (N, s), (h, N, s))
FN(int, gdxSymbIndxMaxLength, (int SyNr, int *LengthInfo), (SyNr, LengthInfo), (h, SyNr, LengthInfo))
FN(int, gdxSymbMaxLength, (), (), (h))
FN(int, gdxSymbolAddComment, (int SyNr, const char *Txt), (SyNr, Txt), (h, SyNr, Txt))
FN(int, gdxSymbolGetComment, (int SyNr, int N, char *Txt), (SyNr, N, Txt), (h, SyNr, N, Txt))
FN(int, gdxSymbolGetDomain, (int SyNr, int *DomainSyNrs), (SyNr, DomainSyNrs), (h, SyNr, DomainSyNrs))
FN(int, gdxSymbolGetDomainX, (int SyNr, char **DomainIDs), (SyNr, DomainIDs), (h, SyNr, DomainIDs))
FN(int, gdxSymbolDim, (int SyNr), (SyNr), (h, SyNr))
FN(int, gdxSymbolInfo, (int SyNr, char *SyId, int *Dimen, int *Typ), (SyNr, SyId, *Dimen, *Typ), (h, SyNr, SyId, Dimen, Typ))
FN(int, gdxSymbolInfoX, (int SyNr, int *RecCnt, int *UserInfo, char *ExplTxt), (SyNr, *RecCnt, *UserInfo, ExplTxt), (h, SyNr, RecCnt, UserInfo, ExplTxt))
FN(int, gdxSymbolSetDomain, (const char **DomainIDs), (DomainIDs), (h, DomainIDs))
FN(int, gdxSymbolSetDomainX, (int SyNr, const char **DomainIDs), (SyNr, DomainIDs), (h, SyNr, DomainIDs))
FN(int, gdxSystemInfo, (int *SyCnt, int *UelCnt), (*SyCnt, *UelCnt), (h, SyCnt, UelCnt))
FN(int, gdxUELMaxLength, (), (), (h))
FN(int, gdxUELRegisterDone, (), (), (h))
FN(int, gdxUELRegisterMap, (int UMap, const char *Uel), (UMap, Uel), (h, UMap, Uel))
FN(int, gdxUELRegisterMapStart, (), (), (h))
FN(int, gdxUELRegisterRaw, (const char *Uel), (Uel), (h, Uel))
FN(int, gdxUELRegisterRawStart, (), (), (h))
FN(int, gdxUELRegisterStr, (const char *Uel, int *UelNr), (Uel, *UelNr), (h, Uel, UelNr))
FN(int, gdxUELRegisterStrStart, (), (), (h))
FN(int, gdxUMFindUEL, (const char *Uel, int *UelNr, int *UelMap), (Uel, *UelNr, *UelMap), (h, Uel, UelNr, UelMap))
FN(int, gdxUMUelGet, (int UelNr, char *Uel, int *UelMap), (UelNr, Uel, *UelMap), (h, UelNr, Uel, UelMap))
FN(int, gdxUMUelInfo, (int *UelCnt, int *HighMap), (*UelCnt, *HighMap), (h, UelCnt, HighMap))
FN(int, gdxGetDomainElements, (int SyNr, int DimPos, int FilterNr, CbDom DP, int *NrElem, void *Uptr), (SyNr, DimPos, FilterNr, DP, *NrElem, Uptr), (h, SyNr, DimPos, FilterNr, DP, NrElem, Uptr))
FN(int, gdxCurrentDim, (), (), (h))
FN(int, gdxRenameUEL, (const char *OldName, const char *NewName), (OldName, NewName), (h, OldName, NewName))
FN(int, gdxStoreDomainSets, (), (), (h))
FN(void, gdxStoreDomainSetsSet, (int flag), (flag), (h, flag))
FN(int, gdxAllowBogusDomains, (), (), (h))
FN(void, gdxAllowBogusDomainsSet, (int flag), (flag), (h, flag))
FN(int, gdxMapAcronymsToNaN, (), (), (h))
FN(void, gdxMapAcronymsToNaNSet, (int flag), (flag), (h, flag))
