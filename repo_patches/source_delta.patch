From 28bb75bd9f5afd04c16f0f4b897439b0739c85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:14 +0000
Subject: [PATCH 01/46] fix: gdxDataReadMap fills every key position of the
 record

In the sorted mapped read mode only the positions changed since the previous
record were written, so a caller passing a different (fresh) key buffer got
undefined keys in the unchanged positions.
---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..56ce3f0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2832,7 +2832,8 @@ again:
    if( DimFrst > 0 )
    {
       bool loopDone {};
-      for( int D { DimFrst - 1 }; D < FCurrentDim && !loopDone; D++ )
+      // map all positions (not only the changed ones), since KeyInt may be a different buffer in each call
+      for( int D {}; D < FCurrentDim && !loopDone; D++ )
       {
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
-- 
2.43.0


From 48d5e5011e83e29268aab1b9579ffee5b41a5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:51 +0000
Subject: [PATCH 02/46] fix: terminate strings copied with an explicit length

A symbol comment longer than 255 characters was cut at 255 characters but
copied without terminator, so closing the file read beyond the buffer and
wrote a corrupt symbol table that could not be opened again.
---
 src/gdlib/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..f71e8a2 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -706,7 +706,8 @@ inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSiz
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
 {
    if( slen + 1 > outBufSize ) return;
-   std::memcpy( buf, s, slen + 1 );
+   std::memcpy( buf, s, slen );
+   buf[slen] = '\0';// s may be longer than slen
 }
 
 inline void assignPCharToBuf( const char *s, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From dfc17ecc3e4015207d1e606350774e303f7851e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:43 +0000
Subject: [PATCH 03/46] fix: producer strings and acronym texts beyond 255
 characters corrupt the file

WriteString wrote the length of the original string instead of the length of
its (replaced) short string, reading beyond the buffer and producing a file
that cannot be opened; assignStrToBuf overran its buffer by one byte when the
string had exactly the size of the buffer.
---
 src/gdlib/gmsstrm.cpp | 3 ++-
 src/gdlib/utils.hpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..a9c5f52 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -250,7 +250,8 @@ void TXStream::WriteString( const std::string_view s )
    static sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
    strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   // length of the converted string, which differs from the length of s when s is too long
+   Write( buf.data(), static_cast<uint8_t>( buf.front() ) + 1u );
 }
 
 void TXStream::WriteDouble( double x )
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index f71e8a2..65260e4 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,7 +695,7 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
+   if( static_cast<int>( s.length() ) >= outBufSize ) return;
 #if defined( _WIN32 )
    std::memcpy( buf, s.c_str(), s.length() + 1 );
 #else
-- 
2.43.0


From b83403a7696f6ec5806fd821c24f5e98ea80e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:04 +0000
Subject: [PATCH 04/46] fix: domain given by an alias of the universe or of
 another alias

With gdxAllowBogusDomainsSet(0), gdxSymbolSetDomain looked only one alias
deep for the domain data: an alias of * read the symbol table at index 0
(out of bounds) and an alias of an alias was refused although the data of
the set are known. Check the set at the end of the alias chain.
---
 src/gxfile.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 56ce3f0..7b48ae3 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2493,15 +2493,15 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
-            if(!AllowBogusDomain &&
-                obj->SDim == 1 &&
-                in(obj->SDataType, dt_set, dt_alias) &&
-                !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
+            if( obj->SDataType == dt_set )
             {
-               ReportError( ERR_NODOMAINDATA );
-               return false;
+               if( !AllowBogusDomain && obj->SDim == 1 && !obj->SSetBitMap )
+               {
+                  ReportError( ERR_NODOMAINDATA );
+                  return false;
+               }
+               break;
             }
-            if( obj->SDataType == dt_set ) break;
             if( obj->SDataType == dt_alias )
             {
                SyNr = obj->SUserInfo;
-- 
2.43.0


From 509a725a36b23a63338f7d26d029f863dc6f5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:01 +0000
Subject: [PATCH 05/46] fix: range check of the acronym number

gdxAcronymSetInfo and gdxAcronymGetMapping combined the two bounds with ||,
so that every number passed and the acronym table was accessed out of
bounds.
---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7b48ae3..de01c15 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2995,7 +2995,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3031,7 +3031,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From cd656503879909a24a4a1d1c8995b201e74edabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:19 +0000
Subject: [PATCH 06/46] fix: gdxAcronymAdd returns 0 for an acronym that is
 already there

It returned the zero based position of the existing entry, which is 0 only
for the first acronym and otherwise reads as the one based number of
another one. The documented result is 0.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index de01c15..613bed3 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3228,7 +3228,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From 3a3b893911a81d526436892d359263da3046b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:20 +0000
Subject: [PATCH 07/46] fix: refused calls must not change the state of the
 handle

Starting to read or write a symbol and gdxDataReadDone in a wrong mode
reported an error but still dropped the symbol being written or switched
the handle to reading: the next gdxDataWriteDone dereferenced a null
pointer, gdxClose left a file without index, and a handle without file
crashed on the next call.
---
 src/gxfile.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 613bed3..4c9a468 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -730,12 +730,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
@@ -880,17 +880,18 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
-   NrMappedAdded = 0;
-   ErrorList = nullptr;
-   CurSyPtr = nullptr;
-   SortList = nullptr;
 
    if( !MajorCheckMode( Caller, fr_init ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      // only a file that is being read can go back to reading
+      if( in( fmode, fr_filter, fr_slice ) ) fmode = fr_init;
       return -1;
    }
+   NrMappedAdded = 0;
+   ErrorList = nullptr;
+   CurSyPtr = nullptr;
+   SortList = nullptr;
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1776,14 +1777,15 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
-   SortList = nullptr;
-   CurSyPtr = nullptr;
    if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      // only a file that is being read can go back to reading
+      if( fmode == fr_filter ) fmode = fr_init;
       return false;
    }
+   SortList = nullptr;
+   CurSyPtr = nullptr;
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From 6e291020325969b8493dff3867bb54cfd7c352cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:33 +0000
Subject: [PATCH 08/46] fix: symbol, domain and acronym queries no longer crash
 without an open file

---
 src/gxfile.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4c9a468..471c62b 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2375,7 +2375,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2384,7 +2384,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2551,7 +2551,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -2972,7 +2972,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -2997,7 +2997,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3033,7 +3033,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3120,7 +3120,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3223,6 +3223,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_ACROBADADDITION ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3253,7 +3254,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3525,6 +3526,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
+   if( !NameList ) return acc;
    for( int N { 1 }; N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
@@ -3567,7 +3569,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 5219e3d72d1f7d116d0297ab7117b0b80faa0df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 09/46] fix: refused whole-symbol reads report failure instead
 of reading through a null symbol

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 471c62b..a41d2f3 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3137,7 +3137,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3302,8 +3302,8 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
 {
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
 
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
 
@@ -3676,6 +3676,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3691,6 +3692,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From f5e0d7567f6c995f4206c21d243507c6576e9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:08 +0000
Subject: [PATCH 10/46] fix: gdxClose finishes a pending write without records
 and a pending UEL registration

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a41d2f3..c978853 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,7 +537,9 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished UEL registration
+      gdxUELRegisterDone();
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
-- 
2.43.0


From 73a545733548fe7e01e41eea5221eed2c4fdbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:07 +0000
Subject: [PATCH 11/46] fix: gdxClose reports write errors of the final flush,
 short writes are completed

---
 src/gxfile.cpp      |  3 ++-
 src/rtl/p3utils.cpp | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index c978853..62e8361 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -628,6 +628,7 @@ int TGXFileObj::gdxClose()
       // Note that we have room for 10 indices; if we need more, create an overflow link in the 10th position.
       for( const int64_t offset: { SymbPos, UELPos, SetTextPos, AcronymPos, NextWritePosition, DomStrPos } )
          FFile->WriteInt64( offset );
+      FFile->FlushBuffer();
    }
 
    int res { FFile ? FFile->GetLastIOResult() : 1 };
@@ -656,7 +657,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( AutoConvert && !fnConv.empty() && !res )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 9ba4173..8508079 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -536,12 +536,18 @@ int p3FileWrite( Tp3FileHandle h, const char *buffer, uint32_t buflen, uint32_t
          res = EIO;
    }
 #else
-   if ( const auto rc = write( h, buffer, buflen ); rc < 0) {
-      res = errno;
-      numWritten = 0;
+   // a write may be short without being an error, e.g. when the disk is almost full
+   numWritten = 0;
+   while( numWritten < buflen )
+   {
+      const auto rc = write( h, buffer + numWritten, buflen - numWritten );
+      if( rc <= 0 )
+      {
+         res = rc < 0 ? errno : EIO;
+         break;
+      }
+      numWritten += ui32( rc );
    }
-   else
-      numWritten = ui32(rc);
 #endif
    return res;
 }
-- 
2.43.0


From 8b6ca36ffff1b7214c05316c1f6b888fc9bca90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 12/46] fix: opening a truncated file no longer uses
 uninitialised or out of range values

---
 src/gdlib/gmsstrm.cpp | 10 +++++++---
 src/gdlib/gmsstrm.hpp |  6 +++---
 src/gxfile.cpp        |  1 +
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index a9c5f52..1d77c3c 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -361,12 +361,13 @@ std::string TXStream::ReadString()
 void TXStream::ReadSString(char *s, uint8_t &len)
 {
    if( Paranoid ) ParCheck( RWType::rw_string );
+   len = 0;
    if( !Read( &len, 1 ) || !len )
    {
       s[0] = '\0';
       return;
    }
-   Read( s, len );
+   len = static_cast<uint8_t>( Read( s, len ) );// shorter at the end of a truncated file
    s[len] = '\0';
 }
 
@@ -611,9 +612,12 @@ bool TBufferedFileStream::FillBuffer()
          if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
          else
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
             unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
+            if( TXFileStream::Read( &CBufPtr->cxData, WLen ) != WLen || uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) != Z_OK )
+            {
+               XLen = 0;
+               SetLastIOResult( strmErrorZLib );
+            }
             NrLoaded = ui32(XLen);
          }
       }
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..8966026 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -133,7 +133,7 @@ protected:
    T ReadValue( RWType rwt )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// stays zero when there is nothing left to read
 #if !defined( NDEBUG ) && defined(__IN_CPPMEX__)
       auto numBytesRead { Read( &res, sizeof( T ) ) };
       // is not required to generally hold and code automatically detects EOF otherwise
@@ -282,11 +282,11 @@ class TMiBufferedStream : public TBufferedFileStream
    T ReadValueOrdered( RWType rwt, bool order_type )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// stays zero when there is nothing left to read
       if( !order_type ) Read( &res, sizeof( T ) );
       else
       {
-         T tmp;
+         T tmp {};
          Read( &tmp, sizeof( T ) );
          reverseBytesMax8( &tmp, &res, sizeof( T ) );
       }
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 62e8361..11ab756 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2087,6 +2087,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       {
          const int SyNr = FFile->ReadInteger();
          if( SyNr <= 0 ) break;
+         if( ErrorCondition( SyNr <= NameList->size(), ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
-- 
2.43.0


From 3f2bc7e05e0fb40a8446f5cd7d365264402be14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:34 +0000
Subject: [PATCH 13/46] fix: a new file is marked readable only after its index
 has been written completely

---
 src/gxfile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 11ab756..c9b1ff6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -622,12 +622,14 @@ int TGXFileObj::gdxClose()
       FFile->WriteString( MARK_DOMS );
 
       // This must be at the very end!!!
-      FFile->SetPosition( MajorIndexPosition );
+      FFile->SetPosition( MajorIndexPosition + static_cast<int64_t>( sizeof( int ) ) );
       FFile->SetCompression( false );
-      FFile->WriteInteger( MARK_BOI );
       // Note that we have room for 10 indices; if we need more, create an overflow link in the 10th position.
       for( const int64_t offset: { SymbPos, UELPos, SetTextPos, AcronymPos, NextWritePosition, DomStrPos } )
          FFile->WriteInt64( offset );
+      // The marker goes last, it makes the file readable
+      FFile->SetPosition( MajorIndexPosition );
+      FFile->WriteInteger( MARK_BOI );
       FFile->FlushBuffer();
    }
 
-- 
2.43.0


From 461d15e67cdf2cc0cddd9846abdc920cbdaba018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 14/46] fix: gdxOpenAppend returns the error number for a file
 that is too old for append

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index c9b1ff6..33cff4f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3454,6 +3454,7 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    if( !res || ErrNr != 0 ) return res;
    if( VersionRead < 7 )
    {
+      ErrNr = ERR_FILETOOLDFORAPPEND;
       ReportError( ERR_FILETOOLDFORAPPEND );
       gdxClose();
       return 0;
-- 
2.43.0


From 345a3213c789197b44bdc17c5fdecee83df415e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 15/46] fix: gdxOpenAppend refuses files in foreign byte order
 instead of mixing both orders

---
 src/gxfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 33cff4f..724fd76 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3459,6 +3459,13 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
       gdxClose();
       return 0;
    }
+   if( FFile->WordsNeedFlip() || FFile->IntsNeedFlip() )
+   {// everything is written in the native byte order, which would mix both in one file
+      ErrNr = ERR_BADDATAFORMAT;
+      ReportError( ERR_BADDATAFORMAT );
+      gdxClose();
+      return 0;
+   }
    fmode = fw_init;
    fstatus = stat_write;
    FFile->SetPosition( NextWritePosition );
-- 
2.43.0


From c512366ce6ac7d2df52300ba76fc861b3402dbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 16/46] fix: gdxOpenAppend refuses files with duplicate element
 texts, whose text numbers would change

---
 src/gxfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 724fd76..28c61fb 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3466,6 +3466,13 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
       gdxClose();
       return 0;
    }
+   if( MapSetText )
+   {// text numbers in the existing data refer to a table with duplicates that would be rewritten without them
+      ErrNr = ERR_FILETOOLDFORAPPEND;
+      ReportError( ERR_FILETOOLDFORAPPEND );
+      gdxClose();
+      return 0;
+   }
    fmode = fw_init;
    fstatus = stat_write;
    FFile->SetPosition( NextWritePosition );
-- 
2.43.0


From 2e1db63505a248390a1513c9337867f8fd387dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:28 +0000
Subject: [PATCH 17/46] fix: any non-zero compression flag given to
 gdxOpenWriteEx enables compression

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 28c61fb..41bf78b 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -422,7 +422,7 @@ int TGXFileObj::gdxOpenWriteEx( const char *FileName, const char *Producer, int
       return false;
    }
 
-   Compr &= ( FFile->GetCanCompress() ? 1 : 0 );
+   Compr = Compr && FFile->GetCanCompress() ? 1 : 0;
    fComprLev = Compr;
    CompressOut = Compr > 0;
    fmode = f_not_open;
-- 
2.43.0


From 1c28fa94bd80ec6d5d6f62e3d23f59954db77a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 18/46] fix: clearing a bit of TBooleanBitArray no longer
 clears the whole byte

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5f033c1..54f9921 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -394,7 +394,7 @@ public:
          GetBitMask( N, P, M );
          if( V ) PData[P] |= M;
          else
-            PData[P] &= !M;
+            PData[P] &= ~M;
       }
    }
 
-- 
2.43.0


From 54c58d8aa4f5030b7eccfd97b2a848b22d6f9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 19/46] fix: RenameEntry of a zero based hash list renames the
 entry asked for

---
 src/gdlib/strhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index a672173..23c8394 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -417,7 +417,7 @@ public:
       }
       if( PHashTable )
       {
-         int HV0 { Hash( GetString( N + 1 ) ) }, HV1 { Hash( s ) };
+         int HV0 { Hash( Buckets[N]->StrP ) }, HV1 { Hash( s ) };
          if( HV0 != HV1 )
          {
             PHashBucket<T> PrevBuck {}, PBuck;
@@ -431,7 +431,7 @@ public:
             ( *PHashTable )[HV1] = PBuck;
          }
       }
-      SetString( N + 1, s, std::strlen( s ) );
+      SetString( N + ( OneBased ? 1 : 0 ), s, std::strlen( s ) );
    }
 
    T *operator[]( const int N )
-- 
2.43.0


From b3d29c2114b65e54fcc829f4193451407e01e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:03 +0000
Subject: [PATCH 20/46] fix: looking up a string in a TXSortedStringList no
 longer recurses endlessly

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 54f9921..bafa1fc 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -846,7 +846,7 @@ public:
    int IndexOf( const char *S, const size_t slen )
    {
       int res;
-      return !FSorted ? this->IndexOf( S, slen ) : !Find( S, slen, res ) ? -1 : res;
+      return !FSorted ? TXCustomStringList<T>::IndexOf( S ) : !Find( S, slen, res ) ? -1 : res;
    }
 
    void BeginUpdate()
-- 
2.43.0


From bbda1167174a7b8caecc8d97979379faa7f0ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:28 +0000
Subject: [PATCH 21/46] fix: gdxUELRegisterMap refuses negative user numbers
 instead of writing outside of the map

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 41bf78b..bd332c5 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2788,6 +2788,7 @@ int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
       debugStream << "   Enter UEL: " << SV << " with number " << UMap << "\n";
    }
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ||
+       ErrorCondition( UMap >= 0, ERR_BADELEMENTINDEX ) ||
        ErrorCondition( UELTable->AddUsrIndxNew( SV, svLen, UMap ) >= 0, ERR_UELCONFLICT ) )
       return false;
    return true;
-- 
2.43.0


From 4f3ef5eeedc14ec7215490e20d158f854f88942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:28 +0000
Subject: [PATCH 22/46] fix: gdxUELRegisterMap refuses a user number that
 belongs to another element

---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index bd332c5..0695aaa 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2789,6 +2789,7 @@ int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
    }
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ||
        ErrorCondition( UMap >= 0, ERR_BADELEMENTINDEX ) ||
+       ErrorCondition( UELTable->UsrUel2Ent->GetMapping( UMap ) < 0 || UELTable->UsrUel2Ent->GetMapping( UMap ) == UELTable->IndexOf( SV ), ERR_UELCONFLICT ) ||
        ErrorCondition( UELTable->AddUsrIndxNew( SV, svLen, UMap ) >= 0, ERR_UELCONFLICT ) )
       return false;
    return true;
-- 
2.43.0


From 127ce7ea83d7b6c1e641eed7952b8a578935a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 23/46] fix: a text file opens with its own password when the
 scrambled check string contains a zero byte or the password is long

---
 src/gdlib/gmsstrm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 1d77c3c..1b35697 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1128,7 +1128,8 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       const std::string src = FS->ReadString();
       sstring targBuf {};
       FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
-      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string(targBuf.data()) ) return;
+      // the scrambled string may contain zero bytes
+      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string( targBuf.data(), src.length() ) ) return;
    }
 
    FRewindPoint = FS->GetPosition();
@@ -1157,11 +1158,12 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       {
          FS->FlushBuffer();
          FS->SetPassWord( PassWord );
-         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( (int) PassWord.length() );
+         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( std::min( (int) PassWord.length(), 255 ) );
          sstring targBuf {};
          FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
          FS->SetPassWord( "" );
-         FS->WriteString( targBuf.data() );
+         // the scrambled string may contain zero bytes
+         FS->WriteString( std::string( targBuf.data(), src.length() ) );
       }
       if( comp ) FS->SetCompression( true );
       else
-- 
2.43.0


From 994c3faeffcd026e819f688c7b9601caf215a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 24/46] fix: rewinding a text file with a header skips the
 verification string also when it is not compressed

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 1b35697..0f4f0c1 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1294,7 +1294,7 @@ void TBinaryTextFileIO::ReWind()
    assert( frw == fm_read && "TBinaryTextFileIO.ReWind1" );
    assert( FS && "TBinaryTextFileIO.ReWind2" );
    FS->SetPosition( FRewindPoint );
-   if( FS->GetCompression() ) FS->ReadString();// skip verification string
+   if( FMajorVersionRead > 0 ) FS->ReadString();// skip verification string
 }
 
 int TBinaryTextFileIO::GetLastIOResult()
-- 
2.43.0


From 3f91405193f9aaf980a0b1f53d4c8fbaad19ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 25/46] fix: reading a line from a gzip file stops at the
 requested maximal length

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 0f4f0c1..146c250 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -186,7 +186,7 @@ uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -199,7 +199,7 @@ void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar
 void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( buffer.size() ) != MaxInp )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -212,7 +212,7 @@ void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char
 void TGZipInputStream::ReadLine( char *buffer, int MaxInp, char &LastChar, int &Len )
 {
    Len = 0;
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( Len ) == MaxInp )
+   while( !in<char>( LastChar, '\r', '\n', substChar ) && static_cast<int>( Len ) != MaxInp )
    {
       buffer[Len++] = LastChar;
       if( NrLoaded - NrRead >= 1 )
-- 
2.43.0


From d78a9505845ceaf9844625eca32b896e69302447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 26/46] fix: WriteGmsInteger handles the smallest integer

---
 src/gdlib/gmsstrm.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 146c250..4e81d3c 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -892,15 +892,16 @@ void TMiBufferedStream::WriteGmsInteger( int N )
 #endif
 
    uint8_t B { static_cast<uint8_t>( N >= 0 ? 0 : 128 ) };
-   if( N < 0 ) N = -N;
-   B |= N & 15;
-   N >>= 4;
+   // magnitude as unsigned value, since the smallest integer has no positive counterpart
+   uint32_t M { N < 0 ? 0u - static_cast<uint32_t>( N ) : static_cast<uint32_t>( N ) };
+   B |= M & 15;
+   M >>= 4;
    int C {};
    std::array<uint8_t, 5> W {};
-   while( N )
+   while( M )
    {
-      W[++C] = ui8(N & 255);
-      N >>= 8;
+      W[++C] = ui8(M & 255);
+      M >>= 8;
    }
    W[0] = ui8(B | C << 4);
    Write( W.data(), C + 1 );
-- 
2.43.0


From 221c23c9f5ac6534bf9c5182288f748f1d130476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 27/46] fix: password scrambling at file offsets beyond 2 GiB
 stays inside of the password

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 4e81d3c..3c4e973 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -540,7 +540,7 @@ TXFileStream::~TXFileStream()
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
 {
    const auto L = static_cast<int>( FPassWord.length() );
-   auto FPwNxt = static_cast<int>( Offs ) % L;
+   auto FPwNxt = static_cast<int>( Offs % L );
    for( int N {}; N < Len; N++ )
    {
       FPwNxt++;
-- 
2.43.0


From 2609dc7bf835c9c84711198910eb3a615ef2a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:07 +0000
Subject: [PATCH 28/46] fix: reading records with element numbers that have no
 label reports a bad element index instead of reading outside of the label
 table

---
 src/gxfile.cpp | 24 ++++++++++++++++++------
 src/gxfile.hpp |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0695aaa..ddefc67 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1031,7 +1031,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( !UELTable->HasEntry( LastElem[D] ) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -1100,7 +1100,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                   for( int D2 { D + 1 }; D2 < FCurrentDim; D2++ )
                   {
                      assert( D2 >= 0 && D2 < GLOBAL_MAX_INDEX_DIM );
-                     if( LastElem[D2] < 0 )
+                     if( !UELTable->HasEntry( LastElem[D2] ) )
                      {
                         ReportError( ERR_BADELEMENTINDEX );
                         AllocOk = false;// That is used as a signal below for something bad happend, i.e., an exception was thrown
@@ -2848,7 +2848,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( !UELTable->HasEntry( LastElem[D] ) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2903,7 +2903,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( !UELTable->HasEntry( LastElem[D] ) )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
@@ -3154,7 +3154,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
       const int RawNr { LastElem[DimPos - 1] };
       if( DFilter )
       {
-         if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
+         if( !UELTable->HasEntry( RawNr ) || !DFilter->InFilter( UELTable->GetUserMap( RawNr ) ) )
          {
             // NOTE: Not covered by unit tests yet.
             //Register this record as a domain error (negative value indicates domain violation)
@@ -3183,6 +3183,11 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
       {
          if( DomainIndxs.GetMapping( N ) == 1 )
          {
+            if( !UELTable->HasEntry( N ) )
+            {
+               ReportError( ERR_BADELEMENTINDEX );
+               return false;
+            }
             NrElem++;
             Index.front() = UELTable->NewUsrUel( N );
             SortL.AddRecord( Index.data(), &N );
@@ -3407,8 +3412,10 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
             KeyStr[D][0] = '?';
             KeyStr[D][1] = '\0';
          }
-         else
+         else if( UELTable->HasEntry( N ) )
             assignPCharToBuf( ( *UELTable )[N], KeyStr[D] );
+         else
+            assignStrToBuf( BADUEL_PREFIX + rtl::sysutils_p3::IntToStr( N ), KeyStr[D] );
       }
    }
    return true;
@@ -3777,6 +3784,11 @@ bool TUELTable::empty() const
    return !FCount;
 }
 
+bool TUELTable::HasEntry( int EN ) const
+{
+   return EN >= 1 && EN <= FCount;
+}
+
 int TUELTable::GetUserMap( int i ) const
 {
    return *GetObject( i );
diff --git a/src/gxfile.hpp b/src/gxfile.hpp
index 1e638bd..fc6c407 100644
--- a/src/gxfile.hpp
+++ b/src/gxfile.hpp
@@ -259,6 +259,7 @@ public:
    ~TUELTable() override = default;
    [[nodiscard]] int size() const;
    [[nodiscard]] bool empty() const;
+   [[nodiscard]] bool HasEntry( int EN ) const;
    [[nodiscard]] int GetUserMap( int i ) const;
    void SetUserMap( int EN, int N );
    int NewUsrUel( int EN );
-- 
2.43.0


From f1a69177343e372f147dc8875a3d938065d224e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:55 +0000
Subject: [PATCH 29/46] fix: gdxdiff takes the default record of a variable or
 equation from its subtype instead of reading outside of the table

---
 src/tools/gdxdiff/gdxdiff.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..1628fd6 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -573,9 +573,11 @@ void CompareSy(const int Sy1, const int Sy2) {
   // Create default record for this type
   if (ST == dt_var || ST == dt_equ) {
     if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
+      const int VarType{VarEquType >= GMS_VARTYPE_UNKNOWN && VarEquType < GMS_VARTYPE_MAX ? VarEquType : GMS_VARTYPE_UNKNOWN};
+      std::copy(std::begin(gmsDefRecVar[VarType]), std::end(gmsDefRecVar[VarType]), std::begin(DefValues));
     } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
+      const int EquType{VarEquType >= GMS_EQU_USERINFO_BASE && VarEquType < GMS_EQU_USERINFO_BASE + GMS_EQUTYPE_MAX ? VarEquType - GMS_EQU_USERINFO_BASE : GMS_EQUTYPE_E};
+      std::copy(std::begin(gmsDefRecEqu[EquType]), std::end(gmsDefRecEqu[EquType]), std::begin(DefValues));
     }
   }
 
-- 
2.43.0


From 225a06425d279d80e66975e8c184ae1e84745dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:24 +0000
Subject: [PATCH 30/46] fix: gdxdiff with DiffOnly does not write
 19-dimensional variables and equations with more than 20 indices

---
 src/tools/gdxdiff/gdxdiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 1628fd6..21a3f33 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -581,7 +581,7 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 1 >= GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From 1b5644baca0e75d86d2000c1949c73a60f5114a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 31/46] fix: gdxmerge with big symbols counts each input file
 once

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..1a80849 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -179,7 +179,10 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
     return;
   }
-  InputFilesRead++;
+  // With big symbols, every file is read in two passes
+  if (Pass != ProcessPass::RpSmall) {
+    InputFilesRead++;
+  }
 
   ShareAcronyms(PGX);
 
-- 
2.43.0


From 4448092f4199702b62f70ff6856910ddb5a725fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 32/46] fix: gdxmerge with big symbols reads exactly the
 indices of a record

---
 src/tools/gdxmerge/gdxmerge.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1a80849..2896386 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -337,8 +337,10 @@ bool SymbolList::CollectBigOne(const int SyNr) {
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        if (SyObj->SyDim > 1) {
+          for (D = FDim - 1; D < SyObj->SyDim - 1; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
-- 
2.43.0


From 8548cf412c413e1e7fe1ece68f2f8bc374660c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 33/46] fix: gdxmerge selects symbols with ID and Exclude
 ignoring the case of their names

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 2896386..705cd42 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -23,6 +23,7 @@
  * SOFTWARE.
  */
 
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
@@ -124,7 +125,7 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    return std::any_of(list.begin(), list.end(), [&](const std::string &item) { return gdlib::strutilx::StrUEqual(item, value); });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From af4f428c3905b812fa49fd0ff5e176518fa7f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 34/46] fix: gdxmerge keeps the acronyms of big symbols

---
 src/tools/gdxmerge/gdxmerge.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 705cd42..9305073 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -333,8 +333,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
+      ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-- 
2.43.0


From 69b289ad5b648b3b54375cc185e88d2c0db8a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:55 +0000
Subject: [PATCH 35/46] fix: gdxmerge checks that big symbols match and keeps
 their explanatory text

---
 src/tools/gdxmerge/gdxmerge.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 9305073..7e76c84 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -333,6 +333,29 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     }
 
     if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
+      int Dim, SyITyp, DummyCount, SySubTyp;
+      library::ShortString SyName, SyText;
+      gdxSymbolInfo(PGX, N, SyName.data(), &Dim, &SyITyp);
+      gdxSymbolInfoX(PGX, N, &DummyCount, &SySubTyp, SyText.data());
+      const gdxSyType SyTyp{SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp)};
+      if (Dim + 1 != SyObj->SyDim || SyTyp != SyObj->SyTyp ||
+          ((SyTyp == dt_var || SyTyp == dt_equ) && SySubTyp != SyObj->SySubTyp)) {
+        FErrorCount++;
+        library::printErrorMessage("\n**** Error in file " + FileName);
+        library::printErrorMessage("     Dimensions, types or subtypes do not match: " + SyName);
+        gdxClose(PGX);
+        gdxFree(&PGX);
+        continue;
+      }
+
+      if (SyObj->SyExplTxt.empty()) {
+        SyObj->SyExplTxt = SyText;
+      } else if (!SyText.empty() && !(SyObj->SyExplTxt == SyText)) {
+        FErrorCount++;
+        library::printErrorMessage("\n**** Error in file " + FileName);
+        library::printErrorMessage("     Explanatory text is different: " + SyName);
+      }
+
       ShareAcronyms(PGX);
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
-- 
2.43.0


From 9df4cebe77819c79b75da585491c056da1161741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 36/46] fix: gdxdump quotes element texts that contain quotes

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..13f93a0 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -127,7 +127,7 @@ void WriteQText(const std::string &S, const bool checkParenthesis) {
 // Check if UEL associated text needs to be quoted
 void WriteQUELText(const std::string &S) {
   WriteQuotedCommon(S, [](const char c) {
-    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*');
+    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*', '\'', '\"');
   });
 }
 
-- 
2.43.0


From 5e255522f804174202b6e6d0292da289c2764fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 37/46] fix: gdxdump takes the type of an equation from its
 user info

---
 src/tools/gdxdump/gdxdump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 13f93a0..d166b95 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -421,6 +421,7 @@ void WriteSymbol(const int SyNr) {
     break;
 
   case dt_equ:
+    AUser -= GMS_EQU_USERINFO_BASE;
     if (AUser < GMS_EQUTYPE_E || AUser > GMS_EQUTYPE_B) {
       AUser = GMS_EQUTYPE_E;
     }
-- 
2.43.0


From 608be4b1ff779b1674a5043720db7e0250050c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 38/46] fix: gdxdump writes all acronyms

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index d166b95..07c313f 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -990,7 +990,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From fa99aa480f32596d0a87c8287f98000ff1cf04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 39/46] fix: gdxdump gives the columns of a CSV file distinct
 names

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 07c313f..197de3d 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -583,7 +583,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From 3de5751864d1193e13439129016317f7f75c87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 40/46] fix: gdxdump considers the set texts of all symbols

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 197de3d..35538d0 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -881,7 +881,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From 45980662ef3a902b6a724375c008552c06e6f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 41/46] fix: gdxdump writes the comments of a symbol in lines
 of their own

---
 src/tools/gdxdump/gdxdump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 35538d0..b65cb5b 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -490,11 +490,15 @@ void WriteSymbol(const int SyNr) {
       WriteComments();
     }
   } else {
+    library::ShortString FirstComment;
+    const bool HasComments{gdxSymbolGetComment(PGX, SyNr, 1, FirstComment.data()) != 0};
     if (ShowHdr && ShowData) {
       fo << " /";
-      if (ADim > 0) {
+      if (ADim > 0 || HasComments) {
         fo << '\n';
       }
+    } else if (ShowHdr && HasComments) {
+      fo << '\n';
     }
     WriteComments();
     if (!ShowData) {
-- 
2.43.0


From 2ca0afc76333d71ad556760ef01c972ed8da768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 42/46] fix: gdxdump with CDim handles records whose last index
 has no label

---
 src/tools/gdxdump/gdxdump.cpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index b65cb5b..d14be15 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -31,6 +31,7 @@
 #include <limits>
 #include <map>
 #include <memory>
+#include <set>
 #include <string_view>
 
 #include "gdlib/dblutil.hpp"
@@ -604,9 +605,8 @@ void WriteSymbolCSV(const int SyNr) {
   };
 
   library::ShortString SyName, S;
-  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, HighIndex, Indx;
+  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, Indx;
   gdxSyType ATyp;
-  std::unique_ptr<bool[]> CSVCols;
   std::unique_ptr<int[]> CSVUels;
   gdxUelIndex_t Keys{};
   gdxValues_t Vals{};
@@ -695,31 +695,22 @@ void WriteSymbolCSV(const int SyNr) {
       fo << '\n';
     }
   } else {
-    CSVCols = std::make_unique<bool[]>(NrUEL);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVCols.get(), NrUEL, false);
-    HighIndex = 0;
-    ColCnt = 0;
+    // Note that elements without a label have numbers outside of 1 .. NrUEL
+    std::set<int> CSVCols;
     gdxDataReadRawStart(PGX, SyNr, &NRec);
     while (gdxDataReadRaw(PGX, Keys, Vals, &FDim) != 0) {
-      Indx = Keys[ADim - 1];
-      if (!CSVCols[Indx - 1]) {
-        CSVCols[Indx - 1] = true;
-        ColCnt++;
-        HighIndex = std::max(HighIndex, Indx);
-      }
+      CSVCols.insert(Keys[ADim - 1]);
     }
     gdxDataReadDone(PGX);
+    ColCnt = static_cast<int>(CSVCols.size());
 
     CSVUels = std::make_unique<int[]>(ColCnt);
     // TODO: Check this, could be redundant
     std::fill_n(CSVUels.get(), ColCnt, 0);
     Col = 0;
-    for (Indx = 0; Indx < HighIndex; Indx++) {
-      if (CSVCols[Indx]) {
-        CSVUels[Col] = Indx + 1;
-        Col++;
-      }
+    for (const int ColIndx : CSVCols) {
+      CSVUels[Col] = ColIndx;
+      Col++;
     }
     library::assertWithMessage(Col == ColCnt, "Col != ColCnt");
     if (bHeader) {
-- 
2.43.0


From dc5768b2e83a7f253caac851c662db9b9f550106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:10 +0000
Subject: [PATCH 43/46] fix: short string wrappers do not return uninitialised
 memory when the call fails

---
 generated/gdxcclib.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/generated/gdxcclib.cpp b/generated/gdxcclib.cpp
index f142be0..bb24620 100644
--- a/generated/gdxcclib.cpp
+++ b/generated/gdxcclib.cpp
@@ -1512,9 +1512,9 @@ GDX_API int GDX_CALLCONV D__gdxAcronymGetInfo(TGXFileRec_t *TGXFile, int N, char
 GDX_API int GDX_CALLCONV D__gdxAcronymGetInfo(TGXFileRec_t *TGXFile, int N, char *AName, char *Txt, int *AIndx)
 {
   int  gdxAcronymGetInfo_result;
-  char AName_sst[256];
+  char AName_sst[256] = "";
   char *AName_local;
-  char Txt_sst[256];
+  char Txt_sst[256] = "";
   char *Txt_local;
   gdxAcronymGetInfo_result = gdxAcronymGetInfo(TGXFile, N, AName_sst, Txt_sst, AIndx);
   AName_local = AName+1;
@@ -1530,7 +1530,7 @@ GDX_API int GDX_CALLCONV D__gdxAcronymName(TGXFileRec_t *TGXFile, double V, char
 GDX_API int GDX_CALLCONV D__gdxAcronymName(TGXFileRec_t *TGXFile, double V, char *AName)
 {
   int  gdxAcronymName_result;
-  char AName_sst[256];
+  char AName_sst[256] = "";
   char *AName_local;
   gdxAcronymName_result = gdxAcronymName(TGXFile, V, AName_sst);
   AName_local = AName+1;
@@ -1622,7 +1622,7 @@ GDX_API int GDX_CALLCONV D__gdxDataReadStr(TGXFileRec_t *TGXFile, char *KeyStr,
   int  gdxDataReadStr_result;
   int KeyStr_cnt;
   int KeyStr_sidim;
-  gdxStrIndex_t KeyStr_dim;
+  gdxStrIndex_t KeyStr_dim = { { 0 } };
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
@@ -1647,7 +1647,7 @@ GDX_API int GDX_CALLCONV D__gdxDataSliceUELS(TGXFileRec_t *TGXFile, const int Sl
   int  gdxDataSliceUELS_result;
   int KeyStr_cnt;
   int KeyStr_sidim;
-  gdxStrIndex_t KeyStr_dim;
+  gdxStrIndex_t KeyStr_dim = { { 0 } };
   gdxStrIndexPtrs_t KeyStr_pdim;
   GDXSTRINDEXPTRS_INIT(KeyStr_dim,KeyStr_pdim); /* assign pdim */
   KeyStr_sidim = gdxCurrentDim(TGXFile);
@@ -1745,7 +1745,7 @@ GDX_API int GDX_CALLCONV D__gdxGetDLLVersion(TGXFileRec_t *TGXFile, char *V);
 GDX_API int GDX_CALLCONV D__gdxGetDLLVersion(TGXFileRec_t *TGXFile, char *V)
 {
   int  gdxGetDLLVersion_result;
-  char V_sst[256];
+  char V_sst[256] = "";
   char *V_local;
   gdxGetDLLVersion_result = gdxGetDLLVersion(TGXFile, V_sst);
   V_local = V+1;
@@ -1758,7 +1758,7 @@ GDX_API int GDX_CALLCONV D__gdxErrorStr(TGXFileRec_t *TGXFile, int ErrNr, char *
 GDX_API int GDX_CALLCONV D__gdxErrorStr(TGXFileRec_t *TGXFile, int ErrNr, char *ErrMsg)
 {
   int  gdxErrorStr_result;
-  char ErrMsg_sst[256];
+  char ErrMsg_sst[256] = "";
   char *ErrMsg_local;
   gdxErrorStr_result = gdxErrorStr(TGXFile, ErrNr, ErrMsg_sst);
   ErrMsg_local = ErrMsg+1;
@@ -1771,9 +1771,9 @@ GDX_API int GDX_CALLCONV D__gdxFileVersion(TGXFileRec_t *TGXFile, char *FileStr,
 GDX_API int GDX_CALLCONV D__gdxFileVersion(TGXFileRec_t *TGXFile, char *FileStr, char *ProduceStr)
 {
   int  gdxFileVersion_result;
-  char FileStr_sst[256];
+  char FileStr_sst[256] = "";
   char *FileStr_local;
-  char ProduceStr_sst[256];
+  char ProduceStr_sst[256] = "";
   char *ProduceStr_local;
   gdxFileVersion_result = gdxFileVersion(TGXFile, FileStr_sst, ProduceStr_sst);
   FileStr_local = FileStr+1;
@@ -1800,7 +1800,7 @@ GDX_API int GDX_CALLCONV D__gdxGetElemText(TGXFileRec_t *TGXFile, int TxtNr, cha
 GDX_API int GDX_CALLCONV D__gdxGetElemText(TGXFileRec_t *TGXFile, int TxtNr, char *Txt, int *Node)
 {
   int  gdxGetElemText_result;
-  char Txt_sst[256];
+  char Txt_sst[256] = "";
   char *Txt_local;
   gdxGetElemText_result = gdxGetElemText(TGXFile, TxtNr, Txt_sst, Node);
   Txt_local = Txt+1;
@@ -1813,7 +1813,7 @@ GDX_API int GDX_CALLCONV D__gdxGetUEL(TGXFileRec_t *TGXFile, int UelNr, char *Ue
 GDX_API int GDX_CALLCONV D__gdxGetUEL(TGXFileRec_t *TGXFile, int UelNr, char *Uel)
 {
   int  gdxGetUEL_result;
-  char Uel_sst[256];
+  char Uel_sst[256] = "";
   char *Uel_local;
   gdxGetUEL_result = gdxGetUEL(TGXFile, UelNr, Uel_sst);
   Uel_local = Uel+1;
@@ -1912,7 +1912,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolGetComment(TGXFileRec_t *TGXFile, int SyNr,
 GDX_API int GDX_CALLCONV D__gdxSymbolGetComment(TGXFileRec_t *TGXFile, int SyNr, int N, char *Txt)
 {
   int  gdxSymbolGetComment_result;
-  char Txt_sst[256];
+  char Txt_sst[256] = "";
   char *Txt_local;
   gdxSymbolGetComment_result = gdxSymbolGetComment(TGXFile, SyNr, N, Txt_sst);
   Txt_local = Txt+1;
@@ -1927,7 +1927,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolGetDomainX(TGXFileRec_t *TGXFile, int SyNr,
   int  gdxSymbolGetDomainX_result;
   int DomainIDs_cnt;
   int DomainIDs_sidim;
-  gdxStrIndex_t DomainIDs_dim;
+  gdxStrIndex_t DomainIDs_dim = { { 0 } };
   gdxStrIndexPtrs_t DomainIDs_pdim;
   GDXSTRINDEXPTRS_INIT(DomainIDs_dim,DomainIDs_pdim); /* assign pdim */
   DomainIDs_sidim = gdxSymbolDim(TGXFile, SyNr);
@@ -1950,7 +1950,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolInfo(TGXFileRec_t *TGXFile, int SyNr, char
 GDX_API int GDX_CALLCONV D__gdxSymbolInfo(TGXFileRec_t *TGXFile, int SyNr, char *SyId, int *Dimen, int *Typ)
 {
   int  gdxSymbolInfo_result;
-  char SyId_sst[256];
+  char SyId_sst[256] = "";
   char *SyId_local;
   gdxSymbolInfo_result = gdxSymbolInfo(TGXFile, SyNr, SyId_sst, Dimen, Typ);
   SyId_local = SyId+1;
@@ -1963,7 +1963,7 @@ GDX_API int GDX_CALLCONV D__gdxSymbolInfoX(TGXFileRec_t *TGXFile, int SyNr, int
 GDX_API int GDX_CALLCONV D__gdxSymbolInfoX(TGXFileRec_t *TGXFile, int SyNr, int *RecCnt, int *UserInfo, char *ExplTxt)
 {
   int  gdxSymbolInfoX_result;
-  char ExplTxt_sst[256];
+  char ExplTxt_sst[256] = "";
   char *ExplTxt_local;
   gdxSymbolInfoX_result = gdxSymbolInfoX(TGXFile, SyNr, RecCnt, UserInfo, ExplTxt_sst);
   ExplTxt_local = ExplTxt+1;
@@ -2058,7 +2058,7 @@ GDX_API int GDX_CALLCONV D__gdxUMUelGet(TGXFileRec_t *TGXFile, int UelNr, char *
 GDX_API int GDX_CALLCONV D__gdxUMUelGet(TGXFileRec_t *TGXFile, int UelNr, char *Uel, int *UelMap)
 {
   int  gdxUMUelGet_result;
-  char Uel_sst[256];
+  char Uel_sst[256] = "";
   char *Uel_local;
   gdxUMUelGet_result = gdxUMUelGet(TGXFile, UelNr, Uel_sst, UelMap);
   Uel_local = Uel+1;
-- 
2.43.0


From ac61fff455b0e573c2c18cc7c99a9c326e598e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:27 +0000
Subject: [PATCH 44/46] fix: gdxGetDomainElements passes indices by reference
 to Fortran callbacks as declared

---
 src/gxfile.cpp | 5 +----
 src/gxfile.hpp | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ddefc67..b3bd9bc 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3750,10 +3750,7 @@ void TGXFileObj::gdxGetDomainElements_DP_FC( int RawIndex, int MappedIndex, void
    if( gdxGetDomainElements_DP_CallByRef )
    {
       const auto local_gdxGetDomainElements_DP { reinterpret_cast<TDomainIndexProc_F>( gdxGetDomainElements_DP ) };
-      uInt64 local_Uptr;
-      local_Uptr.i = 0;
-      local_Uptr.p = Uptr;
-      return local_gdxGetDomainElements_DP( RawIndex, MappedIndex, local_Uptr.i );
+      return local_gdxGetDomainElements_DP( &RawIndex, &MappedIndex, Uptr );
    }
    return gdxGetDomainElements_DP( RawIndex, MappedIndex, Uptr );
 }
diff --git a/src/gxfile.hpp b/src/gxfile.hpp
index fc6c407..3e4a61e 100644
--- a/src/gxfile.hpp
+++ b/src/gxfile.hpp
@@ -71,7 +71,7 @@ using TDataStoreExProc_t = int ( * )( const int *Indx, const double *Vals, const
 
 using TDataStoreExProc_F = int ( * )( const int *Indx, const double *Vals, const int afdim, int64_t Uptr );
 using TDataStoreFiltProc_F = int ( * )( const int *Indx, const double *Vals, int64_t Uptr );
-using TDomainIndexProc_F = void ( * )( int RawIndex, int MappedIndex, int64_t Uptr );
+using TDomainIndexProc_F = void ( * )( int *RawIndex, int *MappedIndex, void *Uptr );
 
 const std::array<int, GMS_DT_ALIAS + 1> DataTypSize { 1, 1, 5, 5, 0 };
 
-- 
2.43.0


From 344216a75bc9000d4e1d35cdbb8448c6ece27a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:00 +0000
Subject: [PATCH 45/46] fix: damaged block length in a compressed file
 overflowed the read buffer

---
 src/gdlib/gmsstrm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 3c4e973..e29e0f9 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -609,7 +609,12 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
+         if( WLen > ( CBufPtr->cxHeader.cxTyp ? CBufSize : BufSize ) )// damaged header, no block is that long
+         {
+            NrLoaded = 0;
+            SetLastIOResult( strmErrorZLib );
+         }
+         else if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
          else
          {
             unsigned long XLen = BufSize;// we need a var parameter
-- 
2.43.0


From 95b0697956a8b108dfec01014061e9639ba7c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:12 +0000
Subject: [PATCH 46/46] fix: symbols read by a refused gdxOpenRead were never
 released

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index b3bd9bc..e5b2362 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1879,7 +1879,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      gdxClose();// releases everything read so far
       return false;
    };
 
-- 
2.43.0

