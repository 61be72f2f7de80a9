From eefcfa9828644cb054fb0655970bd1c6459093de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 001/198] fix: associate() no longer dereferences NULL or keeps
 stale references for rejected DE pointers

---
 src/entities/iges_entity.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..df14f69 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -500,8 +500,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pStructure->addReference(this, dup) )
+            else if( !pStructure->addReference(this, dup) )
             {
                 if( pStructure->GetEntityType() != 0 )
                 {
@@ -561,8 +560,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLineFontPattern->addReference(this, dup) )
+            else if( !pLineFontPattern->addReference(this, dup) )
             {
                 if( pLineFontPattern->GetEntityType() != 0 )
                 {
@@ -599,6 +597,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference( this );
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -633,8 +632,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLevel->addReference(this, dup) )
+            else if( !pLevel->addReference(this, dup) )
             {
                 if( pLevel->GetEntityType() != 0 )
                 {
@@ -671,6 +669,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference( this );
                     pLevel = NULL;
                     ok = false;
                 }
@@ -705,8 +704,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pView->addReference(this, dup) )
+            else if( !pView->addReference(this, dup) )
             {
                 if( pView->GetEntityType() != 0 )
                 {
@@ -744,6 +742,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference( this );
                     pView = NULL;
                     ok = false;
                 }
@@ -785,8 +784,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pTransform->addReference(this, dup) )
+            else if( !pTransform->addReference(this, dup) )
             {
                 if( pTransform->GetEntityType() != 0 )
                 {
@@ -822,6 +820,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference( this );
                     pTransform = NULL;
                     ok = false;
                 }
@@ -856,8 +855,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLabelAssoc->addReference(this, dup) )
+            else if( !pLabelAssoc->addReference(this, dup) )
             {
                 if( pLabelAssoc->GetEntityType() != 0 )
                 {
@@ -894,6 +892,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference( this );
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -928,8 +927,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pColor->addReference(this, dup) )
+            else if( !pColor->addReference(this, dup) )
             {
                 if( pColor->GetEntityType() != 0 )
                 {
@@ -965,6 +963,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference( this );
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From 62b5e97d1cfe9b0e301a6772931ddb56f92a44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 002/198] fix: delReference() looped forever when the first
 optional entity was not the one sought

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index df14f69..cef93f8 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From fcd86cf96ce12121cbfadf944c460d5c20db467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 003/198] fix: parameter comments are written with a DE back
 pointer so that they can be read again

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index cef93f8..fa299c1 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2800,11 +2800,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            // the comment is part of the Parameter Data and needs a pointer to the DE
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From 7c4e47804c94d33ff92e80e2cd60793c7b3b7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 004/198] fix: GetColor()/GetColorEntity() report a color
 entity set via SetColor()

---
 src/entities/iges_entity.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index fa299c1..efb1ec9 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -335,6 +335,7 @@ bool IGES_ENTITY::unlink(IGES_ENTITY *aChild)
     if( aChild == pColor )
     {
         pColor = NULL;
+        colorNum = 0;
         return true;
     }
 
@@ -2325,7 +2326,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor || colorNum < COLOR_NONE )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2340,7 +2341,7 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
     *aColor = NULL;
 
-    if( 0 == (colorNum & 0x80000000) )
+    if( pColor == NULL && colorNum >= 0 )
     {
         if( 0 == colorNum )
             return true;
-- 
2.43.0


From 2de59dd70bdf6a6fd06af4d49200458dcdcce1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 005/198] fix: SetView() rejected every entity and
 GetLabelAssoc() never returned one

---
 src/entities/iges_entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index efb1ec9..b2dc1d0 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2156,7 +2156,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
@@ -2261,7 +2261,7 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
     *aLabelAssoc = NULL;
 
-    if( 0 == (labelAssoc & 0x80000000) )
+    if( 0 == labelAssoc && !pLabelAssoc )
         return true;
 
     if( !pLabelAssoc )
-- 
2.43.0


From 864a272ca908a9954797a3f6e8cfb059fb063413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 006/198] fix: DelOptionalEntity() could never remove an entity
 added by AddOptionalEntity()

---
 src/entities/iges_entity.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index b2dc1d0..815fe32 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2918,16 +2918,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2939,13 +2933,21 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 is a 'back-pointer' and holds no reference to this entity
+            if( eType != 402 && !aEntity->delReference( this ) )
+            {
+                ERRMSG << "\n + [INFO] could not delete reference\n";
+                return false;
+            }
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] no such entity in <extras>\n";
     return false;
 }
 
-- 
2.43.0


From ec692f4989cf752d372eb3858bf4cb8f5b3bef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 007/198] fix: DelComment() and ClearComments() left stale
 pointers in the list returned by GetComments()

---
 src/entities/iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 815fe32..bbd45e7 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3035,6 +3035,7 @@ bool IGES_ENTITY::DelComment( int index )
     }
 
     comments.erase( bs );
+    vcomments.clear();
     return true;
 }
 
@@ -3042,6 +3043,7 @@ bool IGES_ENTITY::DelComment( int index )
 bool IGES_ENTITY::ClearComments( void )
 {
     comments.clear();
+    vcomments.clear();
     return true;
 }
 
-- 
2.43.0


From ef31b087ea8ad35bb5425744fd224ee2f40c9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 008/198] fix: Line entity: coordinates were not initialised

---
 src/entities/entity110.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..d926109 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -38,6 +38,14 @@ IGES_ENTITY_110::IGES_ENTITY_110( IGES* aParent ) : IGES_CURVE( aParent )
 {
     entityType = 110;
     form = 0;
+
+    X1 = 0.0;
+    Y1 = 0.0;
+    Z1 = 0.0;
+    X2 = 0.0;
+    Y2 = 0.0;
+    Z2 = 0.0;
+
     return;
 }
 
-- 
2.43.0


From 1ecd1fc357377b997c6044aa0b011a36969b6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 009/198] fix: Conic entity: rescale() moved the end points off
 the curve

---
 src/entities/entity104.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..073fc4b 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,11 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // note: the quadratic coefficients A..C are invariant; the others
+    // must scale with the order of the length in order to retain the conic
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 5a70546a76cbd476a91c11e93f4790dec231f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 010/198] fix: large circles written by the library were
 rejected when read (unequal radii due to rounding)

---
 src/entities/entity100.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..489259a 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -368,9 +368,12 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     double d1 = p1.x*p1.x + p1.y*p1.y;
     double d2 = p2.x*p2.x + p2.y*p2.y;
+    double dr = sqrt( d2 ) - sqrt( d1 );
     d1 = d2 - d1;
 
-    if( abs( d1 ) > uir )
+    // note: d1 is a difference of squares; for large circles the rounding of
+    // the coordinates alone may exceed the resolution so test the radii as well
+    if( fabs( d1 ) > uir && fabs( dr ) > uir )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has unequal radii (diff: " << d1 << ") " << uir << "\n";
-- 
2.43.0


From 790a1aa8d7707e1688a38e3c516be563dbd50dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 011/198] fix: associate(): a repeated attempt after a failure
 left dangling parent references

---
 src/entities/iges_entity.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index bbd45e7..7eeebba 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -481,6 +481,33 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
     if( massoc )
         return true;
 
+    // release anything retained by a previous attempt which failed; otherwise
+    // those references would be mistaken for duplicates
+    IGES_ENTITY** pLinks[6] = { &pStructure, &pLineFontPattern, &pLevel, &pView, &pLabelAssoc, &pColor };
+
+    for( int i = 0; i < 6; ++i )
+    {
+        if( NULL != *pLinks[i] )
+        {
+            (*pLinks[i])->delReference( this );
+            *pLinks[i] = NULL;
+        }
+    }
+
+    if( NULL != pTransform )
+    {
+        pTransform->delReference( this );
+        pTransform = NULL;
+    }
+
+    for( size_t i = 0; i < extras.size(); ++i )
+    {
+        if( extras[i]->GetEntityType() != ENT_ASSOCIATIVITY_INSTANCE )
+            extras[i]->delReference( this );
+    }
+
+    extras.clear();
+
     bool ok = true;
     int idx;
     int tEnt;
-- 
2.43.0


From 89b14f7eca9d94d9f354307002a55498c6acb406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 012/198] fix: a defaulted field preceded by line padding could
 not be read

---
 src/iges/iges_io.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..724693a 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -238,6 +238,16 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
+    // skip blanks, for example the padding at the end of the previous line
+    while( idx < (int)data.length() && data[idx] == ' ' )
+        ++idx;
+
+    if( idx >= (int)data.length() )
+    {
+        ERRMSG << "\n + [BAD DATA] no Parameter or Record delimeter found in data\n";
+        return false;
+    }
+
     if( data[idx] == pd || data[idx] == rd )
     {
         if( data[idx] == rd )
@@ -349,6 +359,11 @@ bool ParseLString( const std::string& data, int& idx, std::string& param, bool&
     param = data.substr( idx, strEnd - idx );
     idx += (int)param.length();
 
+    // a field which contains nothing but blanks (for example the padding at
+    // the end of a line) is a defaulted field
+    if( param.find_first_not_of( ' ' ) == string::npos )
+        param.clear();
+
     if( data[idx] == rd )
     {
         ++idx;
-- 
2.43.0


From 67b18a0b362b556b77b3a4b22ea7df59c494ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 013/198] fix: out of bounds access on a Hollerith string with
 a huge length

---
 src/iges/iges_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 724693a..7f6d460 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -261,7 +261,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
     if( errno || cp == rp )
     {
@@ -288,7 +288,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (long)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
@@ -298,7 +298,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 
     param = data.substr(idx, i);
 
-    idx += i;
+    idx += (int)i;
 
     if( data[idx] == rd )
     {
-- 
2.43.0


From bc4a1ec2df09861411dc4a3ff9aad61eda55e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 014/198] fix: numbers which are not finite or exceed the range
 of an int are rejected when reading and writing

---
 src/iges/iges_io.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 7f6d460..b2b998d 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <climits>
 
 #include <error_macros.h>
 #include <core/iges_io.h>
@@ -411,9 +412,9 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    if( errno || cp == rp || i < INT_MIN || i > INT_MAX )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -427,7 +428,7 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         cerr << "Data: " << data.substr(tidx) << "\n";
     }
 
-    param = i;
+    param = (int)i;
     return true;
 }
 
@@ -467,7 +468,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
     errno = 0;
     double d = strtod( cp, &rp );
 
-    if( errno || cp == rp )
+    // note: 'nan' and 'inf' are understood by strtod but are not numbers
+    if( errno || cp == rp || !std::isfinite( d ) )
     {
         ERRMSG << "\n + [BAD DATA]: invalid floating point number\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -513,12 +515,18 @@ bool FormatDEInt( std::string& out, const int num )
 // format a real number as a float or double and tack on a delimeter (may be PD or RD)
 bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
 {
-    if( 0 >= minRes )
+    if( !(minRes > 0) )
     {
         ERRMSG << "\n + [BUG] minRes <= 0\n";
         return false;
     }
 
+    if( !std::isfinite( var ) )
+    {
+        ERRMSG << "\n + [BUG] not a finite number; it has no representation in IGES\n";
+        return false;
+    }
+
     double vlim = var / minRes;
 
     if( vlim < 0.0 )
@@ -527,6 +535,10 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( vlim < 10.0 )
         vlim = 10.0;
 
+    // no more than 16 digits are used
+    if( vlim > 1e20 )
+        vlim = 1e20;
+
     // estimate the exponent size
     double ne = var;
 
-- 
2.43.0


From 81fa1b441798ab728ebec7114786209c5bada6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 015/198] fix: Plane entity: bounding curve and symbol size
 were not initialised

---
 src/entities/entity108.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 87d9841..d8d26b2 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -51,12 +51,14 @@ IGES_ENTITY_108::IGES_ENTITY_108( IGES* aParent ) : IGES_ENTITY( aParent )
     D = 0.0;
 
     /* default no bounding curve */
+    PTR = NULL;
     iPtr = 0;
 
     /* default symbol location and size */
     X = 0.0;
     Y = 0.0;
     Z = 0.0;
+    Size = 0.0;
     return;
 }
 
-- 
2.43.0


From 8ed51fff1f0da78189ba8894e2bf7dde5bae30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 016/198] fix: Plane entity: parameter data were written
 without delimiters

---
 src/entities/entity108.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index d8d26b2..5503204 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -244,7 +244,8 @@ bool IGES_ENTITY_108::format( int &index )
     }
     else
     {
-        FormatDEInt( tStr, 0 );
+        tStr = "0";
+        tStr += pd;
     }
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
@@ -273,7 +274,7 @@ bool IGES_ENTITY_108::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !FormatPDREal( tStr, Size, pd, uir ) )
+    if( !FormatPDREal( tStr, Size, extras.empty() ? rd : pd, uir ) )
     {
         ERRMSG << "\n + [INFO] could not format display Size\n";
         return false;
-- 
2.43.0


From 39403ccae1982b7d4c01bcf8a4b8d1d9202e027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 017/198] fix: Plane entity: valid bounded planes were culled
 and invalid ones retained

---
 src/entities/entity108.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 5503204..1e4a322 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -328,7 +328,7 @@ bool IGES_ENTITY_108::unlink(IGES_ENTITY *aChildEntity)
 
 bool IGES_ENTITY_108::isOrphaned( void )
 {
-    if( (refs.empty() && (depends != STAT_INDEPENDENT) ) || ((0 != form) && (NULL != PTR)) )
+    if( (refs.empty() && (depends != STAT_INDEPENDENT) ) || ((0 != form) && (NULL == PTR)) )
     {
         return true;
     }
-- 
2.43.0


From 053d177a707aec630576b3929db237943a09c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 018/198] fix: Plane entity: rescale() did not scale the plane

---
 src/entities/entity108.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 1e4a322..6a20683 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -305,7 +305,12 @@ bool IGES_ENTITY_108::format( int &index )
 
 bool IGES_ENTITY_108::rescale( double sf )
 {
-    // there is nothing to scale
+    // note: the coefficients A..C are a direction and have no scale
+    D *= sf;
+    X *= sf;
+    Y *= sf;
+    Z *= sf;
+    Size *= sf;
     return true;
 }
 
-- 
2.43.0


From f06faf028b7ed405368861cc9c4fdce28533fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 019/198] fix: Plane entity: Level, Dependency and Use were
 replaced by the values of a Color Definition

---
 src/entities/entity108.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 6a20683..bc93afe 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -84,10 +84,6 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
 
     structure = 0;
     lineFontPattern = 0;
-    level = 0;
-    view = 0;
-    transform = 0;
-    labelAssoc = 0;
     lineWeightNum = 0;
 
     if( pStructure )
@@ -170,10 +166,6 @@ bool IGES_ENTITY_108::format( int &index )
     pdout.clear();
     iExtras.clear();
 
-    // ensure compliance of STATUS NUM with specification
-    depends = STAT_INDEPENDENT;     // fixed value
-    use = STAT_USE_DEFINITION;      // fixed value
-
     /* Validate parameters */
     if ((0.0 == A) && (0.0 == B) && (0.0 == C))
     {
@@ -375,7 +367,6 @@ bool IGES_ENTITY_108::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     }
 
     structure = 0;                  // N.A.
-    use = STAT_USE_GEOMETRY;        // fixed
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
     if ((form != 0) && (form != 1) && (form != -1))
@@ -521,6 +512,7 @@ bool IGES_ENTITY_108::SetEntityForm( int aForm )
     {
         ERRMSG << "\n + [WARNING] [BUG] Entity 108 only supports Forms -1,0,1 (requested form: ";
         cerr << aForm << ")\n";
+        return false;
     }
 
     form = aForm;
@@ -530,23 +522,13 @@ bool IGES_ENTITY_108::SetEntityForm( int aForm )
 
 bool IGES_ENTITY_108::SetDependency( IGES_STAT_DEPENDS aDependency )
 {
-    if( aDependency != 0 )
-    {
-        ERRMSG << "\n + [WARNING] [BUG] Entity 108 only supports STAT_INDEPENDENT\n";
-    }
-
-    return true;
+    return IGES_ENTITY::SetDependency( aDependency );
 }
 
 
 bool IGES_ENTITY_108::SetEntityUse( IGES_STAT_USE aUseCase )
 {
-    if( aUseCase != 2 )
-    {
-        ERRMSG << "\n + [WARNING] [BUG] Entity 108 only supports STAT_USE_DEFINITION\n";
-    }
-
-    return true;
+    return IGES_ENTITY::SetEntityUse( aUseCase );
 }
 
 
-- 
2.43.0


From 104a451b301beeef6bc6658fdff9438650ae31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 020/198] fix: Plane entity: a rejected bounding curve left a
 dangling reference; the order of entities in a file mattered

---
 src/entities/entity108.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index bc93afe..3842438 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -112,18 +112,25 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
+        IGES_CURVE* cp = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
 
-        if( NULL == PTR )
+        if( NULL == cp )
         {
             ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
             cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
             return false;
         }
 
+        // the curve may have no segments until its own associations are established
+        if( !cp->associate( entities ) )
+        {
+            ERRMSG << "\n + [INFO] failed to establish associations of the bounding curve\n";
+            return false;
+        }
+
         // ensure that the curve is a closed curve
         // **CAVEAT** TODO: planarity of curve is not checked here
-        if( !PTR->IsClosed())
+        if( !cp->IsClosed())
         {
             ERRMSG << "\n + [VIOLATION] Child entity (Type: " << ((*entities)[iEnt])->GetEntityType();
             cerr << ", DE: " << iPtr << ") is not a closed curve\n";
@@ -132,7 +139,7 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
 
         bool dup = false;
 
-        if( !(*entities)[iEnt]->addReference( this, dup ))
+        if( !cp->addReference( this, dup ))
         {
             ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
             return false;
@@ -143,6 +150,8 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
             ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
             return false;
         }
+
+        PTR = cp;
     }
 
     return true;
-- 
2.43.0


From 5e0ee1f161b9b143db4d8cf87437892deb52c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 021/198] fix: Solid of Linear Extrusion: a rejected curve left
 a dangling reference; the order of entities in a file mattered

---
 src/entities/entity164.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..70e2a56 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -95,37 +95,46 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
-    bool dup = false;
+    IGES_CURVE* cp = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
 
-    if( !(*entities)[iEnt]->addReference(this, dup) )
+    if( NULL == cp )
     {
         ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
+        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
         return false;
     }
 
-    if( dup )
+    // the curve may have no segments until its own associations are established
+    if( !cp->associate( entities ) )
     {
-        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+        ERRMSG << "\n + [INFO] failed to establish associations of the closed curve\n";
         return false;
     }
 
-    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
+    // ensure that the curve is a closed curve
+    if( !cp->IsClosed() )
+    {
+        ERRMSG << "\n + [VIOLATION] Child entity (Type: " << ((*entities)[iEnt])->GetEntityType();
+        cerr << ", DE: " << iPtr << ") is not a closed curve\n";
+        return false;
+    }
 
-    if( NULL == PTR )
+    bool dup = false;
+
+    if( !cp->addReference(this, dup) )
     {
         ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
-        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
         return false;
     }
 
-    // ensure that the curve is a closed curve
-    if( !PTR->IsClosed() )
+    if( dup )
     {
-        ERRMSG << "\n + [VIOLATION] Child entity (Type: " << ((*entities)[iEnt])->GetEntityType();
-        cerr << ", DE: " << iPtr << ") is not a closed curve\n";
+        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
         return false;
     }
 
+    PTR = cp;
+
     return true;
 }
 
-- 
2.43.0


From 134cb4b3f5ab4088bf9dc9bb3f86943977dceff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 022/198] fix: Plane entity: GetClosedCurve() and
 SetClosedCurve() were declared but not implemented

---
 src/entities/entity108.cpp | 50 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 3842438..a4d9ad7 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -568,3 +568,53 @@ bool IGES_ENTITY_108::SetLineWeightNum( int aLineWeight )
     ERRMSG << "\n + [WARNING] [BUG] Color Definition Entity does not support Line Weight\n";
     return true;
 }
+
+
+bool IGES_ENTITY_108::GetClosedCurve( IGES_CURVE** aCurve )
+{
+    *aCurve = PTR;
+    return NULL != PTR;
+}
+
+
+bool IGES_ENTITY_108::SetClosedCurve( IGES_CURVE* aCurve )
+{
+    if( !aCurve )
+    {
+        ERRMSG << "\n + [ERROR] NULL passed as curve entity pointer\n";
+        return false;
+    }
+
+    if( !aCurve->IsClosed() )
+    {
+        ERRMSG << "\n + [ERROR] closed curve is required; supplied curve is not closed\n";
+        return false;
+    }
+
+    if( aCurve == PTR )
+        return true;
+
+    bool dup = false;
+
+    if( !aCurve->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [ERROR] could not register association with closed curve\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
+    if( PTR )
+        PTR->delReference( this );
+
+    PTR = aCurve;
+
+    if( NULL != parent && parent != PTR->GetParentIGES() )
+        parent->AddEntity( PTR );
+
+    return true;
+}
-- 
2.43.0


From 34126d7cc34f78273c4f249d2816f7cdbfb2e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 023/198] fix: Solid of Linear Extrusion: a defaulted direction
 is (0,0,1), not a null vector

---
 src/entities/entity164.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 70e2a56..46ccc76 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -397,7 +397,7 @@ bool IGES_ENTITY_164::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
-        K1 = 0.0;
+        K1 = 1.0;
     }
 
     // ensure (I1,J1,K1) is a unit vector
-- 
2.43.0


From d9eb1db920ed2ca7dcc212ab0e2891816d09cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 024/198] fix: Right Circular Cylinder: a radius below the
 resolution replaced the height

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..6516247 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -280,7 +280,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
-- 
2.43.0


From d3e795fc75682ef91c6a9d20e33d0567cca1fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 025/198] fix: Right Circular Cylinder: a defaulted K1 was
 rejected

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 6516247..7889346 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -366,7 +366,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     if( !eor )
     {
-        if( !ParseReal( pdout, idx, K1, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, K1, eor, pd, rd, &ddef ) )
         {
             ERRMSG << "\n + [BAD FILE] no K1 value for Right Circular Cylinder\n";
             pdout.clear();
-- 
2.43.0


From 5560d2f83e8df6c6c0a79a7076444750c6dc655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 026/198] fix: Surface of Revolution: associate() succeeded
 although a curve was rejected

---
 src/entities/entity120.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..55276e4 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -102,6 +102,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             L = NULL;
             ERRMSG << "\n + [INFO] could not associate line entity with DE " << iL << "\n";
+            return false;
         }
 
         if( dup )
@@ -134,6 +135,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             C = NULL;
             ERRMSG << "\n + [INFO] could not associate curve (generatrix) with DE " << iC << "\n";
+            return false;
         }
 
         if( dup )
-- 
2.43.0


From f6d3658423920533d4763ef6c0479fe679c66033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 027/198] fix: Tabulated Cylinder: SetDE(NULL) dereferenced a
 NULL pointer; a rejected directrix left a dangling pointer

---
 src/entities/entity122.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..750deea 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -109,6 +109,13 @@ bool IGES_ENTITY_122::associate(std::vector<IGES_ENTITY *> *entities)
             ERRMSG << "\n + [INFO] could not add reference to directrix curve entity (" << iDE << ")\n";
             return false;
         }
+
+        if( dup )
+        {
+            DE = NULL;
+            ERRMSG << "\n + [CORRUPT FILE] adding duplicate entry (" << iDE << ")\n";
+            return false;
+        }
     }
 
     return true;
@@ -403,6 +410,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         DE = NULL;
     }
 
+    if( !aPtr )
+        return false;
+
     bool dup = false;
 
     if( !aPtr->addReference(this, dup) )
-- 
2.43.0


From c077a6909bd46a5399b6be3af9960afaabab52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 028/198] fix: Transformation Matrix: the form number was never
 validated

---
 src/entities/entity124.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..6047744 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -289,7 +289,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && (form < 10 || form > 12) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
@@ -371,7 +371,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && (aForm < 10 || aForm > 12) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From e789647f328df27c21782c0e3d413b616bb2172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 029/198] fix: Transformation Matrix: unlink() ignored optional
 entities, which left dangling pointers

---
 src/entities/entity124.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6047744..10606db 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,21 +234,7 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
-    if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
-    {
-        ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-        cerr << aChildEntity->GetEntityType() << ")\n";
-        return false;
-    }
-
-    if( aChildEntity == pTransform )
-    {
-        pTransform = NULL;
-        transform = 0;
-        return true;
-    }
-
-    return false;
+    return IGES_ENTITY::unlink( aChildEntity );
 }
 
 
-- 
2.43.0


From 91adb5a2d39510e52c9802266fe638481d38c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 030/198] fix: Transformation Matrix: a circular chain of
 transforms caused infinite recursion

---
 src/entities/entity124.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 10606db..d425f7a 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -249,6 +249,25 @@ bool IGES_ENTITY_124::isOrphaned( void )
 
 bool IGES_ENTITY_124::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
 {
+    isDuplicate = false;
+
+    // a chain of transforms must not lead back to the entity which refers to it
+    for( IGES_ENTITY* ep = this; ep; )
+    {
+        if( ep == aParentEntity )
+        {
+            ERRMSG << "\n + [INFO] requesting circular reference\n";
+            return false;
+        }
+
+        IGES_ENTITY* next = NULL;
+
+        if( !ep->GetTransform( &next ) )
+            break;
+
+        ep = next;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
-- 
2.43.0


From b5aeb21f0ef19aef497fd7279e818f58eaf9a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 031/198] fix: NURBS Curve: GetNURBSData() dereferenced a NULL
 pointer

---
 src/entities/entity126.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..1350f6e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -965,8 +965,8 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
-- 
2.43.0


From cd2c83b9a2bd7048da09009a11a841cdc7d81654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 032/198] fix: NURBS Curve: SetNURBSData() left a dangling SISL
 curve and altered the entity when the data were rejected

---
 src/entities/entity126.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 1350f6e..9ea1e2b 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1000,11 +1000,6 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     const double* coeff, bool isRational, double v0, double v1 )
 {
-#ifdef USE_SISL
-    if( NULL != scurve )
-        freeCurve( scurve );
-#endif
-
     if( !knot || !coeff )
     {
         ERRMSG << "\n + [INFO] invalid NURBS parameter pointer (NULL)\n";
@@ -1027,24 +1022,34 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    int lastKnot = nCoeff + order - 1;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[lastKnot] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[lastKnot] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+#ifdef USE_SISL
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
+    nKnots = nCoeff + order;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
     if( knots )
     {
         delete [] knots;
-- 
2.43.0


From 55c66c21f8c9694d1f9f98c4a92dd28f02b84d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 033/198] fix: NURBS Curve: a huge K or M in a file caused an
 overflow or an uncaught exception; missing normal was not initialised

---
 src/entities/entity126.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9ea1e2b..6fa287a 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -543,8 +543,24 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each knot, weight and coordinate takes at least one character
+    if( (double)M + 5.0 * K > (double)pdout.length() )
+    {
+        ERRMSG << "\n + [BAD FILE] insufficient data for K = " << K << ", M = " << M << "\n";
+        pdout.clear();
+        return false;
+    }
+
     double tR;
 
+#ifdef USE_SISL
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
     if( knots )
         delete [] knots;
 
@@ -624,9 +640,9 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
     }
 
-    double tX;
-    double tY;
-    double tZ;
+    double tX = 0.0;
+    double tY = 0.0;
+    double tZ = 0.0;
 
     for( int i = 0, j = 0; i <= K; ++i )
     {
@@ -693,6 +709,11 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
     {
         ERRMSG << "\n + [VIOLATION] Unit Normal Vector field absent (must be present even though ignored for non-planar curve)\n";
         cerr << " + [INFO] offending DE: " << sequenceNumber << "\n";
+
+        // revert to the default normal
+        tX = 0.0;
+        tY = 0.0;
+        tZ = 1.0;
     }
 
     if( PROP1 == 1 )
-- 
2.43.0


From 90369d9a4008a6103c7c1f686734a8d67ab5c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 034/198] fix: NURBS Curve: rescale() could loop forever and
 left a stale SISL curve

---
 src/entities/entity126.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 6fa287a..c39370e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -27,6 +27,7 @@
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
+#include <algorithm>
 #include <core/iges_io.h>
 #include <geom/mcad_helpers.h>
 #include <core/entity124.h>
@@ -328,6 +329,10 @@ bool IGES_ENTITY_126::rescale( double sf )
             break;
         }
 
+        // guard against circular references
+        if( std::find( eps.begin(), eps.end(), ep ) != eps.end() )
+            break;
+
         eps.push_back( ep );
         ep = ep->getFirstParentRef();
     }
@@ -358,6 +363,15 @@ bool IGES_ENTITY_126::rescale( double sf )
     if( NULL == coeffs )
         return true;
 
+#ifdef USE_SISL
+    // the SISL curve may retain its own copy of the control points
+    if( NULL != scurve )
+    {
+        freeCurve( scurve );
+        scurve = NULL;
+    }
+#endif
+
     for( int i = 0, j = 0; i < nCoeffs; ++i )
     {
         if( scaleXY )
-- 
2.43.0


From 62c6ae6ee631187e615f18c58d2c1b77eac2a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 035/198] fix: NURBS Curve: end points of rational curves
 ignored that SISL requires weighted control points

---
 src/entities/entity126.cpp   | 25 +++++++++++++++++++++++--
 src/include/core/entity126.h |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index c39370e..9d0c4a1 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -846,6 +846,27 @@ bool IGES_ENTITY_126::GetNormal( MCAD_POINT& aNorm )
 }
 
 
+#ifdef USE_SISL
+// create the SISL representation; SISL expects the control points of
+// a rational curve to be multiplied by their weight
+SISLCurve* IGES_ENTITY_126::makeCurve( void )
+{
+    if( PROP3 )
+        return newCurve( nCoeffs, M + 1, knots, coeffs, 1, 3, 1 );
+
+    vector<double> wcoeffs( coeffs, coeffs + nCoeffs * 4 );
+
+    for( int i = 0; i < nCoeffs; ++i )
+    {
+        for( int j = 0; j < 3; ++j )
+            wcoeffs[i * 4 + j] *= wcoeffs[i * 4 + 3];
+    }
+
+    return newCurve( nCoeffs, M + 1, knots, &wcoeffs[0], 2, 3, 1 );
+}
+#endif
+
+
 int IGES_ENTITY_126::GetNCurves( void )
 {
     return 1;
@@ -868,7 +889,7 @@ bool IGES_ENTITY_126::GetStartPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
+        scurve = makeCurve();
 
         if( !scurve )
         {
@@ -926,7 +947,7 @@ bool IGES_ENTITY_126::GetEndPoint( MCAD_POINT& pt, bool xform )
 #ifdef USE_SISL
     if( !scurve )
     {
-        scurve = newCurve( nCoeffs, M + 1, knots, coeffs, PROP3 ? 1 : 2, 3, 0 );
+        scurve = makeCurve();
 
         if( !scurve )
         {
diff --git a/src/include/core/entity126.h b/src/include/core/entity126.h
index bf8ca60..5f7a3c9 100644
--- a/src/include/core/entity126.h
+++ b/src/include/core/entity126.h
@@ -87,6 +87,7 @@ private:
     bool hasUniquePlane( MCAD_POINT* norm = NULL );
 #ifdef USE_SISL
     SISLCurve* scurve;
+    SISLCurve* makeCurve( void );
 #endif
 
 protected:
-- 
2.43.0


From 352fc1c3712a9e71ca08db69cd80f03530fa0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 036/198] fix: NURBS Curve: GetNCurves() must return 0 for a
 simple curve

---
 src/entities/entity126.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9d0c4a1..9c9f459 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -869,7 +869,7 @@ SISLCurve* IGES_ENTITY_126::makeCurve( void )
 
 int IGES_ENTITY_126::GetNCurves( void )
 {
-    return 1;
+    return 0;
 }
 
 
-- 
2.43.0


From 9e169961f2030f1b5cbf1e89ab3ba35bd61c02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 037/198] fix: NURBS Surface: GetNURBSData() dereferenced a
 NULL pointer

---
 src/entities/entity128.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..419b8a6 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -889,9 +889,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From 6d97609a9069b592b769692dc4c5a424cc8359a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 038/198] fix: NURBS Surface: SetNURBSData() altered the entity
 when the data were rejected

---
 src/entities/entity128.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 419b8a6..f9a70d8 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -976,40 +976,43 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    int lastKnot1 = nCoeff1 + order1 - 1;
+    int lastKnot2 = nCoeff2 + order2 - 1;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[lastKnot1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[lastKnot1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[lastKnot2] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[lastKnot2] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nCoeff1 + order1;
+    nKnots2 = nCoeff2 + order2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From 2df6afb69d94c02238d725fcfaf1a556edfc2f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 039/198] fix: NURBS Surface: huge sizes in a file caused an
 overflow or an uncaught exception

---
 src/entities/entity128.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index f9a70d8..ad6f466 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -590,6 +590,15 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each knot, weight and coordinate takes at least one character
+    if( (double)M1 + M2 + 4.0 * ( K1 + 1.0 ) * ( K2 + 1.0 ) > (double)pdout.length() )
+    {
+        ERRMSG << "\n + [BAD FILE] insufficient data for K1 = " << K1 << ", K2 = " << K2;
+        cerr << ", M1 = " << M1 << ", M2 = " << M2 << "\n";
+        pdout.clear();
+        return false;
+    }
+
     double tR;
 
     nKnots1 = 2 + K1 + M1;
-- 
2.43.0


From f088ed43c15d88905f1043b7d6c61d4315b153b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 040/198] fix: Property entity: memory leak when a file
 contains an unsupported Form

---
 src/entities/entity406.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/entities/entity406.cpp b/src/entities/entity406.cpp
index da688d5..3cea888 100644
--- a/src/entities/entity406.cpp
+++ b/src/entities/entity406.cpp
@@ -57,20 +57,13 @@ IGES_ENTITY_406::IGES_ENTITY_406( IGES* aParent ) : IGES_ENTITY( aParent )
 IGES_ENTITY_406::~IGES_ENTITY_406()
 {
     // delete internal data
-    switch( form )
+    // note: the data is a string even if a file specified an
+    // unsupported Form
+    if( data )
     {
-        case 15:
-            if (data)
-            {
-                std::string *sp = (std::string *)data;
-                delete sp;
-                data = NULL;
-            }
-            break;
-
-        default:
-            ERRMSG << "\n + [WARNING] TO BE IMPLEMENTED\n";
-            break;
+        std::string *sp = (std::string *)data;
+        delete sp;
+        data = NULL;
     }
 
     return;
-- 
2.43.0


From 627d19445519b97c1422f832e0594b796479d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 041/198] fix: Subfigure Instance: a rejected definition left a
 dangling pointer

---
 src/entities/entity408.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..fbd0d36 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -115,6 +115,7 @@ bool IGES_ENTITY_408::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+            DE = NULL;
             return false;
         }
 
-- 
2.43.0


From 66b12f205f934b20f0d974ceeb85f9d4474e483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 042/198] fix: Subfigures: an indirect circular reference
 caused infinite recursion in getDepthLevel()

---
 src/entities/entity308.cpp   | 41 ++++++++++++++++++++++++++++++++++++
 src/entities/entity408.cpp   |  2 +-
 src/include/core/entity308.h |  7 ++++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..d878275 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <set>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -296,6 +297,12 @@ bool IGES_ENTITY_308::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         }
     }
 
+    if( subfigureDependsOn( this, aParentEntity ) )
+    {
+        ERRMSG << "\n + [BUG] circular reference requested\n";
+        return false;
+    }
+
     return IGES_ENTITY::addReference(aParentEntity, isDuplicate);
 }
 
@@ -610,6 +617,40 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
 }
 
 
+bool IGES_ENTITY_308::subfigureDependsOn( IGES_ENTITY* aEntity, IGES_ENTITY* aTarget )
+{
+    std::set<IGES_ENTITY*> visited;
+    std::vector<IGES_ENTITY*> pending;
+    pending.push_back( aEntity );
+
+    while( !pending.empty() )
+    {
+        IGES_ENTITY* ep = pending.back();
+        pending.pop_back();
+
+        if( NULL == ep || !visited.insert( ep ).second )
+            continue;
+
+        if( ep == aTarget )
+            return true;
+
+        if( ep->GetEntityType() == ENT_SUBFIGURE_DEFINITION )
+        {
+            IGES_ENTITY_308* ep308 = (IGES_ENTITY_308*)ep;
+            pending.insert( pending.end(), ep308->DE.begin(), ep308->DE.end() );
+        }
+        else if( ep->GetEntityType() == ENT_SINGULAR_SUBFIGURE_INSTANCE )
+        {
+            IGES_ENTITY_308* ep308 = NULL;
+            ((IGES_ENTITY_408*)ep)->GetDE( ep308 );
+            pending.push_back( ep308 );
+        }
+    }
+
+    return false;
+}
+
+
 int IGES_ENTITY_308::getDepthLevel( void )
 {
     if( DE.empty() )
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index fbd0d36..585bb19 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -255,7 +255,7 @@ bool IGES_ENTITY_408::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
         return false;
     }
 
-    if( aParentEntity == DE )
+    if( aParentEntity == DE || IGES_ENTITY_308::subfigureDependsOn( this, aParentEntity ) )
     {
         ERRMSG << "\n + [INFO] requesting circular reference\n";
         return false;
diff --git a/src/include/core/entity308.h b/src/include/core/entity308.h
index f282e09..416907e 100644
--- a/src/include/core/entity308.h
+++ b/src/include/core/entity308.h
@@ -89,6 +89,13 @@ public:
      */
     int getDepthLevel( void );
 
+    /**
+     * Function subfigureDependsOn
+     * returns true if aTarget is aEntity or is a Subfigure Definition or Instance
+     * which aEntity, itself a Subfigure Definition or Instance, is comprised of.
+     */
+    static bool subfigureDependsOn( IGES_ENTITY* aEntity, IGES_ENTITY* aTarget );
+
 public:
     IGES_ENTITY_308( IGES* aParent );
     virtual ~IGES_ENTITY_308();
-- 
2.43.0


From 17bf5bddedd8c14d80fa3804c99e1f08a3882aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 043/198] fix: Subfigure Definition: DelDE() left a reference
 to the definition in the removed entity

---
 src/entities/entity308.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index d878275..5b4a9e9 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -605,8 +605,10 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             DE.erase( bref );
             N = (int)DE.size();
+            m_DE.clear();
             return true;
         }
 
-- 
2.43.0


From 74efd93a9cadd25fa1e7d54966ae63310d8cefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 044/198] fix: Subfigure Definition: the time to calculate the
 depth level grew exponentially with the nesting

---
 src/entities/entity308.cpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index 5b4a9e9..9a26047 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <map>
 #include <set>
 #include <sstream>
 #include <error_macros.h>
@@ -653,33 +654,39 @@ bool IGES_ENTITY_308::subfigureDependsOn( IGES_ENTITY* aEntity, IGES_ENTITY* aTa
 }
 
 
-int IGES_ENTITY_308::getDepthLevel( void )
+// calculate the depth level; each definition is only evaluated once
+// since it may be instantiated many times
+static int calcDepthLevel( IGES_ENTITY_308* aDef, std::map<IGES_ENTITY_308*, int>& aLevels )
 {
-    if( DE.empty() )
-        return 0;
+    std::map<IGES_ENTITY_308*, int>::iterator lvl = aLevels.find( aDef );
+
+    if( lvl != aLevels.end() )
+        return lvl->second;
 
     int nd = 0; // minimum depth level
     int tm = 0;
 
-    std::list<IGES_ENTITY*>::iterator bref = DE.begin();
-    std::list<IGES_ENTITY*>::iterator eref = DE.end();
+    std::list<IGES_ENTITY*>::iterator bref = aDef->DE.begin();
+    std::list<IGES_ENTITY*>::iterator eref = aDef->DE.end();
 
     while( bref != eref )
     {
+        IGES_ENTITY_308* ep308 = NULL;
+
         if( (*bref)->GetEntityType() == ENT_SUBFIGURE_DEFINITION )
         {
-            IGES_ENTITY_308* ep308;
             ep308 = (IGES_ENTITY_308*)(*bref);
-            tm = ep308->getDepthLevel();
+            tm = calcDepthLevel( ep308, aLevels );
 
             if( tm >= nd )
                 nd = tm + 1;
         }
         else if( (*bref)->GetEntityType() == ENT_SINGULAR_SUBFIGURE_INSTANCE )
         {
-            IGES_ENTITY_408* ep408;
-            ep408 = (IGES_ENTITY_408*)(*bref);
-            tm = ep408->getDepthLevel();
+            tm = 0;
+
+            if( ((IGES_ENTITY_408*)(*bref))->GetDE( ep308 ) )
+                tm = calcDepthLevel( ep308, aLevels );
 
             if( tm >= nd )
                 nd = tm + 1;
@@ -687,11 +694,20 @@ int IGES_ENTITY_308::getDepthLevel( void )
         else if( (*bref)->GetEntityType() == ENT_NETWORK_SUBFIGURE_DEFINITION )
         {
             ERRMSG << "\n + [INFO] TO BE IMPLEMENTED: respond to ENT_NETWORK_SUBFIGURE_DEFINITION\n";
-            return -100;
+            nd = -100;
+            break;
         }
 
         ++bref;
     }
 
+    aLevels[aDef] = nd;
     return nd;
 }
+
+
+int IGES_ENTITY_308::getDepthLevel( void )
+{
+    std::map<IGES_ENTITY_308*, int> levels;
+    return calcDepthLevel( this, levels );
+}
-- 
2.43.0


From b1a8978df7010b65f7ad399a4d3ad069d26d01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 045/198] fix: dates: an invalid month caused an out of bounds
 access; seconds were not checked

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..d9e41c9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -187,7 +187,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     if( imon < 1 || imon > 12 )
-        ok = false;
+        return false;
 
     errno = 0;
     cp0 = dmday.c_str();
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 70a8af7332a870a8937f0ad65753bc2c4076d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 046/198] fix: Read(): entities were retained when a file was
 rejected due to bad associations

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d9e41c9..4f90bda 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -609,6 +609,8 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From f1ec5791064f6a834a2043350e8d5b01814f4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 047/198] fix: Write(): success was reported although the data
 could not be written

---
 src/iges/iges.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4f90bda..cb88f23 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -662,8 +662,8 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         {
             ERRMSG << "\n + [INFO] could not format entity for output\n";
 
-            for( nEnt = 0; nEnt < iEnt; ++nEnt )
-                entities[iEnt]->unformat();
+            for( size_t i = 0; i < iEnt; ++i )
+                entities[i]->unformat();
 
             return false;
         }
@@ -811,14 +811,16 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     oline += tmp;
     oline += "\n";
     file << oline;
+    // note: data may still be buffered; errors may not be reported until the file is closed
+    file.close();
 
     if( file.fail() )
     {
-        file.close();
+        ERRMSG << "\n + [INFO] could not write file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
         return false;
     }
 
-    file.close();
     return true;
 }
 
-- 
2.43.0


From 711cfef8a83305b9138736be782dc559778a8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 048/198] fix: Global Section: a record delimeter could only be
 specified if the parameter delimeter was; it was not validated

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cb88f23..bdd24a8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1098,7 +1098,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1106,12 +1106,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 19288d2164201e022f3366675a0b3c254308bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 049/198] fix: Global Section: defaults of the receiving system
 and modification date, checks of the preprocessor version and drafting
 standard

---
 src/iges/iges.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index bdd24a8..e9188c1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1183,7 +1183,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
@@ -1284,7 +1284,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
@@ -1483,6 +1483,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid Drafting Standard (";
             cerr << tint << ")\n";
+            tint = DRAFT_NONE;
         }
 
         globalData.draftStandard = (IGES_DRAFTING_STANDARD)tint;
@@ -1501,7 +1502,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 4ce6a0e056a3e7179566db6a2d4b15c9459d3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 050/198] fix: Global Section: units and model scale were not
 applied if the section had less than 26 items

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e9188c1..bce7314 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1514,10 +1514,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From 1fae3c223c850736bb0a5bb5630aa6445dfb3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 051/198] fix: a model in user-defined units was taken to be in
 millimeters

---
 src/iges/iges.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index bce7314..dcd2610 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1536,7 +1536,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.convert = true;
     }
 
-    if( globalData.unitsFlag != UNIT_MILLIMETER )
+    if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
@@ -2204,7 +2204,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    if( globalData.unitsFlag == UNIT_EXTERN && !globalData.unitsName.empty() )
+        tstr = globalData.unitsName;
+    else
+        tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 105189b70e03ea318f4afb42c70ab5ced96bbd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 052/198] fix: GetUnitName() returned the name of a different
 unit

---
 src/iges/iges.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index dcd2610..20adf6f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2670,5 +2670,8 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    if( globalData.unitsFlag == UNIT_EXTERN && !globalData.unitsName.empty() )
+        return globalData.unitsName.c_str();
+
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From 275a34ff26010eff6222d0b72c41baa8722036d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 053/198] fix: Global Section: the maximum line width was
 replaced by the number of gradations

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 20adf6f..2eb05ae 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2233,9 +2233,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From 77b1bbc1b9da351673bd7a7154402e9118c81dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 054/198] fix: ChangeModelScale(): the resolution was not
 scaled by the same factor as the model

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2eb05ae..b8d989a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1845,7 +1845,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From b2b884a20c4840d03879605b352a4d2c3564e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 055/198] fix: GetNewPartName() and GetNewAssemblyName()
 returned the same name when called again within a second

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b8d989a..731385d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2641,7 +2641,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2661,7 +2661,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxAssyNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From ef8fbd9930787d0300cabff40f3e0aa0ada8bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 056/198] fix: AddToHeader(): a line of exactly 72 characters
 was lost

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 731385d..e34c757 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1911,12 +1911,12 @@ bool IGES::AddToHeader( const char*& comments )
     size_t slen = tStr.length();
     size_t slen1;
 
-    if( slen < 72 )
+    if( slen <= 72 )
     {
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From c2b0d5f7794fef5700601bca3a65a657456e5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 057/198] fix: GetHeaders(): the number of lines was not
 returned; stale pointers were returned after Clear()

---
 src/iges/iges.cpp       | 4 +++-
 src/include/core/iges.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e34c757..1c1918a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -392,6 +392,7 @@ bool IGES::init(void)
     globalData.convert = false;
 
     startSection.clear();
+    vStartSection.clear();
     nGlobSecLines = 0;
     nDESecLines = 0;
     nPDSecLines = 0;
@@ -491,6 +492,7 @@ bool IGES::Read( const char* aFileName )
             return false;
         }
 
+        vStartSection.clear();
         startSection.push_back( rec.data );
         fOK = ReadIGESRecord( &rec, file );
     }
@@ -1864,7 +1866,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From 4ec0e914ab52a1c1d97de3806401121323fb06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 058/198] fix: AddEntity(): an entity transferred from another
 model was owned and deleted by both models

---
 src/iges/iges.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 1c1918a..eb082f7 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -970,6 +970,10 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity has a single owner
+    if( aEntity->parent && aEntity->parent != this )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -1022,6 +1026,11 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+
+            // do not retain a pointer to an object which does not own the entity
+            if( aEntity->parent == this )
+                aEntity->parent = NULL;
+
             return true;
         }
 
@@ -2584,9 +2593,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         }
     }
 
+    // note: ownership of the entities changes so iterate through a copy of the list
+    std::vector<IGES_ENTITY*> tents( entities );
+    nEnt = tents.size();
+
     for( size_t i = 0; i < nEnt; ++ i )
     {
-        if( !newParent->AddEntity( entities[i] ) )
+        if( !newParent->AddEntity( tents[i] ) )
         {
             ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
 
@@ -2594,10 +2607,7 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             newParent->UnlinkEntity( ep );
 
             for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
+                AddEntity( tents[j] );
 
             delete ep;
             return false;
-- 
2.43.0


From 8f6ca7d725764cdbe5054674be7ef488a8bae9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 059/198] fix: Export(): infinite loop on failure, unchecked
 conversion of units, integer division in the line width adjustment

---
 src/iges/iges.cpp | 52 +++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index eb082f7..c6c6da1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2399,17 +2399,17 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
-    if( NULL == newParent )
+    if( NULL == packagedEntity )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
         return false;
     }
 
-    if( NULL == packagedEntity )
+    *packagedEntity = NULL;
+
+    if( NULL == newParent || this == newParent )
     {
-        ERRMSG << "\n + [BUG] Export() invoked without a valid Entity 308 handle\n";
+        ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
         return false;
     }
 
@@ -2424,18 +2424,24 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     double pms = newParent->globalData.modelScale;
     IGES_UNIT pUF = newParent->globalData.unitsFlag;
 
-    if( globalData.modelScale != pms )
-        ChangeModelScale( pms );
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+    {
+        ERRMSG << "\n + [INFO] could not change the model scale\n";
+        return false;
+    }
 
-    if( globalData.unitsFlag != pUF )
-        ConvertUnits( pUF );
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+    {
+        ERRMSG << "\n + [INFO] could not convert the units\n";
+        return false;
+    }
 
     size_t nEnt = entities.size();
 
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
@@ -2539,9 +2545,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
                 ep = p308;
-                sEnt = sslist.begin();
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                // restore the entities to this object
+                for( sEnt = sslist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
@@ -2560,9 +2570,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                sEnt = tplist.begin();
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                // restore the entities to this object
+                for( sEnt = tplist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
@@ -2581,9 +2595,13 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
             if( !p308->AddDE(*sEnt) )
             {
                 ERRMSG << "\n + [INFO] could not transfer MSBO entity to Subfigure Definition\n";
-                sEnt = brlist.begin();
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+                // restore the entities to this object
+                for( sEnt = brlist.begin(); sEnt != eEnt; ++sEnt )
+                {
+                    p308->DelDE( *sEnt );
+                    AddEntity( *sEnt );
+                }
 
                 newParent->DelEntity( ep );
                 return false;
-- 
2.43.0


From b43ae221f7a63e0d76b33ca00ba7c0c7c8f2be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 060/198] fix: Cull(): entities orphaned by the removal of
 their parent were retained

---
 src/iges/iges.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c6c6da1..4c6ad27 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1762,6 +1762,7 @@ void IGES::Cull( bool vicious )
     size_t nEnt = entities.size();
     size_t iEnt;
     int nCulled = 0;
+    int nLast = 0;
     std::vector<IGES_ENTITY*> tmpEnts;
 
     for( iEnt = 0; iEnt < nEnt; ++iEnt )
@@ -1783,9 +1784,30 @@ void IGES::Cull( bool vicious )
         }
     }
 
-    entities.clear();
     entities = tmpEnts;
 
+    // the deletion of a parent may orphan its children
+    while( nLast != nCulled )
+    {
+        nLast = nCulled;
+        tmpEnts.clear();
+
+        for( iEnt = 0; iEnt < entities.size(); ++iEnt )
+        {
+            if( entities[iEnt]->isOrphaned() )
+            {
+                ++nCulled;
+                delete entities[iEnt];
+            }
+            else
+            {
+                tmpEnts.push_back( entities[iEnt] );
+            }
+        }
+
+        entities = tmpEnts;
+    }
+
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
     cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
-- 
2.43.0


From bdb20379a6bfb36f139108f052776b53cc5af3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 061/198] fix: FormatPDREal(): values larger than the
 resolution were written as 0

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index b2b998d..efff013 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -545,7 +545,7 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 3f5d462f6369a218c2a675b5082569e78a016b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 062/198] fix: Color Definition: long names were dropped,
 optional pointers were written in place of an empty name

---
 src/entities/entity314.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..d4b4359 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -216,9 +216,17 @@ bool IGES_ENTITY_314::format( int &index )
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format the color name\n";
+            pdout.clear();
+            return false;
+        }
+    }
+    else if( !extras.empty() )
+    {
+        // an explicit default is required ahead of the optional pointers
+        tStr = pd;
         AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
     }
 
-- 
2.43.0


From 714edd5042972fbad8c052561861e0808d8f635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 063/198] fix: Trimmed Surface: a surface without an explicit
 outer boundary could not be read

---
 src/entities/entity144.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..c4830ca 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -217,7 +217,7 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         }
 
     }
-    else
+    else if( N1 != 0 )
     {
         ERRMSG << "\n + [VIOLATION] unspecified boundary entity\n";
         iPTI.clear();
@@ -581,7 +581,9 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    // the pointer may be 0 (default outline) if N1 is 0
+    if( iPTO < 0 || ( iPTO == 0 && N1 != 0 )
+        || ( iPTO != 0 && (iPTO & 1) == 0 ) || iPTO > 9999997 )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From 0d336c1d90a6e182fee3a80d428f534d4e92a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 064/198] fix: Trimmed Surface: stale cutout list and back
 references after removing a boundary

---
 src/entities/entity144.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c4830ca..71965b3 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -407,6 +407,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
     if( aChild == PTO )
     {
         PTO = NULL;
+        N1 = 0;
         return true;
     }
 
@@ -420,6 +421,7 @@ bool IGES_ENTITY_144::unlink(IGES_ENTITY *aChild)
             if( aChild == *sPTI )
             {
                 PTI.erase( sPTI );
+                vPTI.clear();
                 N2 = (int)PTI.size();
                 return true;
             }
@@ -876,7 +878,9 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             PTI.erase( bref );
+            vPTI.clear();
             N2 = (int)PTI.size();
             return true;
         }
-- 
2.43.0


From 832eb4406a0a6e13f47cacfb4ee8285009d0e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 065/198] fix: Boolean Tree: valid (odd) operand pointers were
 rejected while reading

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..97fb86f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -444,7 +444,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From 0afabb704f25bad41df3bd83d80f4d79ead83052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 066/198] fix: Boolean Tree: dangling references to operands
 after one of them was unlinked

---
 src/entities/entity180.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 97fb86f..3e7ed67 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,7 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
@@ -313,6 +312,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,7 +321,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
     return true;
 }
-- 
2.43.0


From 8d3a3b139bc01c5e2973a810ae6deb47461e78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 067/198] fix: Boolean Tree: Form must be 1 if an operand is a
 Manifold Solid BREP

---
 src/entities/entity180.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 3e7ed67..3b54c9f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -616,6 +616,10 @@ bool IGES_ENTITY_180::AddArg( IGES_ENTITY* aOperand )
     np->pEnt = aOperand;
     nodes.push_back( np );
 
+    // Form 1 is required if there is at least one Manifold Solid BREP
+    if( iEnt == ENT_MANIFOLD_SOLID_BREP )
+        form = 1;
+
     if( NULL != parent && parent != aOperand->GetParentIGES() )
         parent->AddEntity( aOperand );
 
-- 
2.43.0


From 0b4620fd8ff640a2530d0262a690d69f3f2e41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 068/198] fix: Manifold Solid BREP: a shell used twice left a
 dangling pointer

---
 src/entities/entity186.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..bb7809c 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -126,6 +126,14 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    if( dup )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] duplicate reference to the outer shell entity\n";
+        mshell = NULL;
+        ivoids.clear();
+        return false;
+    }
+
     list<pair<int, bool> >::iterator sV = ivoids.begin();
     list<pair<int, bool> >::iterator eV = ivoids.end();
     IGES_ENTITY* ep;
@@ -167,6 +175,13 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate reference to a void shell\n";
+            ivoids.clear();
+            return false;
+        }
+
         mvoids.push_back( pair<IGES_ENTITY_514*, bool>( (IGES_ENTITY_514*)ep, sV->second ) );
         ++sV;
     }
-- 
2.43.0


From c7dd104140c4a20700bc1ac8c29cab5ea11c69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 069/198] fix: Manifold Solid BREP: the number of voids was not
 written

---
 src/entities/entity186.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index bb7809c..e571388 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -231,22 +231,22 @@ bool IGES_ENTITY_186::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
-    if( mvoids.empty() )
-    {
-        ostr.str("");
+    ostr.str("");
 
-        if( extras.empty() )
-            ostr << "0" << rd;
-        else
-            ostr << "0" << pd;
+    if( mvoids.empty() && extras.empty() )
+        ostr << mvoids.size() << rd;
+    else
+        ostr << mvoids.size() << pd;
 
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
-    }
+    tStr = ostr.str();
+    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = --(mvoids.end());
+    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = eV;
+
+    if( !mvoids.empty() )
+        --iV;
 
     while( sV != eV )
     {
-- 
2.43.0


From 78d7624d4d167e29f5c9648d76da3bfbd15ae71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 070/198] fix: ~IGES_ENTITY(): invalid iterator if a parent
 releases its reference within unlink()

---
 src/entities/iges_entity.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 7eeebba..858995a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -128,20 +128,14 @@ IGES_ENTITY::~IGES_ENTITY()
     m_validFlags.clear();
     comments.clear();
 
-    if( !refs.empty() )
+    // note: the parent may invoke delReference() in response to unlink()
+    while( !refs.empty() )
     {
-        std::list<IGES_ENTITY*>::iterator rbeg = refs.begin();
-        std::list<IGES_ENTITY*>::iterator rend = refs.end();
+        IGES_ENTITY* pp = refs.front();
+        refs.pop_front();
 
-        while( rbeg != rend )
-        {
-            if( !(*rbeg)->unlink(this) )
-                ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
-
-            ++rbeg;
-        }
-
-        refs.clear();
+        if( !pp->unlink(this) )
+            ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
     }
 
     if( !extras.empty() )
-- 
2.43.0


From a0be90fcfb92749551d539991aba11c8042f76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 071/198] fix: Vertex List: the coordinates of the last vertex
 were separated by the record delimiter

---
 src/entities/entity502.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..6012a95 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -90,6 +90,12 @@ bool IGES_ENTITY_502::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
+    if( vertices.empty() )
+    {
+        ERRMSG << "\n + [INFO] the Vertex List has no vertices\n";
+        return false;
+    }
+
     vector<MCAD_POINT>::iterator sV = vertices.begin();
     vector<MCAD_POINT>::iterator eV = --vertices.end();
     double vals[3];
@@ -133,7 +139,7 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        if( !FormatPDREal( tStr, vals[i], i < 2 ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From f3a464a96909796361066cecb627c5efb5704705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 072/198] fix: Edge List: unlink() inspected and downcast an
 entity which may be under destruction, stale edge data

---
 src/entities/entity504.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..58a63b1 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -194,6 +194,12 @@ bool IGES_ENTITY_504::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] the Edge List has no edges\n";
+        return false;
+    }
+
     list<EDGE_DATA>::iterator sV = edges.begin();
     list<EDGE_DATA>::iterator eV = --edges.end();
     int acc = 0;
@@ -282,14 +288,21 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
-    int eType = aChildEntity->GetEntityType();
+    vedges.clear();
     list<EDGE_DATA>::iterator sE = edges.begin();
     list<EDGE_DATA>::iterator eE = edges.end();
 
-    if( 502 == eType )
+    // check if this is a vertex list
+    list< pair<IGES_ENTITY_502*, int> >::iterator sL = vertices.begin();
+    list< pair<IGES_ENTITY_502*, int> >::iterator eL = vertices.end();
+
+    while( sL != eL )
     {
-        if( delVertexList( (IGES_ENTITY_502*)aChildEntity, true ) )
+        if( aChildEntity == (IGES_ENTITY*)sL->first )
         {
+            sL->first->delReference(this);
+            vertices.erase( sL );
+
             // we must disassociate all curves referencing the vertex list
             while( sE != eE )
             {
@@ -320,8 +333,7 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
             return true;
         }
 
-        ERRMSG << "\n + [INFO] unlink() invoked on an unowned Vertex List entity\n";
-        return false;
+        ++sL;
     }
 
     // check if this is a curve entity
@@ -368,7 +380,7 @@ bool IGES_ENTITY_504::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate
 
     while( sV != eV )
     {
-        if( this == (IGES_ENTITY*)sV->first )
+        if( aParentEntity == (IGES_ENTITY*)sV->first )
         {
             ERRMSG << "\n + [BUG] circular reference with vertex list requested\n";
             return false;
-- 
2.43.0


From 20ce164ba80294196532abedf8bbe4471f3ab345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 073/198] fix: Edge List: entities of any type were used as a
 Vertex List while reading

---
 src/entities/entity504.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 58a63b1..ed62d77 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -137,7 +137,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp0 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         lI = sI->tvp >> 1;
 
@@ -149,7 +149,15 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp1 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
+
+        if( !lp0 || !lp1 )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] entity is not a Vertex List in DE";
+            cerr << sequenceNumber << "\n";
+            deItems.clear();
+            return false;
+        }
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
-- 
2.43.0


From 5f5b37c06cc88cd2356ef926d8808d458257da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 074/198] fix: Edge List: GetEdges() never returned the number
 of edges and always reported failure

---
 src/entities/entity504.cpp   | 7 ++++---
 src/include/core/entity504.h | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index ed62d77..b8a9603 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -577,7 +577,7 @@ bool IGES_ENTITY_504::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 
 bool
-IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
+IGES_ENTITY_504::GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList )
 {
     if( edges.empty() )
     {
@@ -600,9 +600,9 @@ IGES_ENTITY_504::GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList )
         }
     }
 
-    aListSize = 0;
+    aListSize = vedges.size();
     aEdgeList = &vedges[0];
-    return false;
+    return true;
 }
 
 
@@ -659,6 +659,7 @@ bool IGES_ENTITY_504::AddEdge( IGES_ENTITY* aCurve,
     nc.tv = aTV;
 
     edges.push_back( nc );
+    vedges.clear();
 
     if( NULL != parent )
     {
diff --git a/src/include/core/entity504.h b/src/include/core/entity504.h
index 621de8c..be88435 100644
--- a/src/include/core/entity504.h
+++ b/src/include/core/entity504.h
@@ -143,7 +143,7 @@ public:
      * Function GetEdges
      * returns a vector containing Edge data for convenient access by users
      */
-    bool GetEdges( size_t aListSize, EDGE_DATA const*& aEdgeList );
+    bool GetEdges( size_t& aListSize, EDGE_DATA const*& aEdgeList );
 
 
     /**
-- 
2.43.0


From 192bf9618466c70a179980ae845af18f2e9808f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 075/198] fix: Loop: dangling references and invalid iterators
 when entities are unlinked or cannot be added

---
 src/entities/entity508.cpp | 145 +++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 80 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..bb4e770 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -75,6 +75,27 @@ bool LOOP_DATA::GetPCurves( size_t& aListSize, LOOP_PAIR**& aPCurveList )
 }
 
 
+// release the references held by a LOOP_DATA structure and delete it;
+// no reference is deleted from the curve 'aExclude'
+static void releaseLoopData( LOOP_DATA* aData, IGES_ENTITY* aParent, IGES_ENTITY* aExclude )
+{
+    vector< LOOP_PAIR* >::iterator sP = aData->pcurves.begin();
+    vector< LOOP_PAIR* >::iterator eP = aData->pcurves.end();
+
+    while( sP != eP )
+    {
+        if( aParent && (*sP)->curve != aExclude )
+            (*sP)->curve->delReference( aParent );
+
+        delete *sP;
+        ++sP;
+    }
+
+    delete aData;
+    return;
+}
+
+
 IGES_ENTITY_508::IGES_ENTITY_508( IGES* aParent ) : IGES_ENTITY( aParent )
 {
     entityType = 508;
@@ -95,17 +116,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
-
-        while( sP != eP )
-        {
-            (*sP)->curve->unlink(this);
-            delete *sP;
-            ++sP;
-        }
-
-        delete *sF;
+        releaseLoopData( *sF, this, NULL );
         ++sF;
     }
 
@@ -117,7 +128,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
@@ -159,6 +170,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [CORRUPT FILE] edge index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
+            releaseLoopData( ldata, NULL, NULL );
             deItems.clear();
             return false;
         }
@@ -175,6 +187,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
             {
                 ERRMSG << "\n + [CORRUPT FILE] PS curve index exceeds number of entities in DE";
                 cerr << sequenceNumber << "\n";
+                releaseLoopData( ldata, NULL, NULL );
                 deItems.clear();
                 return false;
             }
@@ -189,7 +202,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 
         if( !AddEdge( ldata ) )
         {
-            delete ldata;
+            releaseLoopData( ldata, NULL, NULL );
             ERRMSG << "\n + [INFO] could not add edge data for entity ";
             cerr << sequenceNumber << "\n";
             deItems.clear();
@@ -360,16 +373,8 @@ bool IGES_ENTITY_508::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
-    int eType = aChildEntity->GetEntityType();
-
-    if( ENT_VERTEX == eType || ENT_EDGE == eType )
-    {
-        if( delEdge( aChildEntity, true, true ) )
-            return true;
-
-        ERRMSG << "\n +[BUG] failed to unlink edge entity from E508\n";
-        return false;
-    }
+    if( delEdge( aChildEntity, true, true ) )
+        return true;
 
     if( delPCurve( aChildEntity, true, true ) )
         return true;
@@ -748,59 +753,41 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
-    {
-        IGES_ENTITY* ep = sE->first;
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
 
-        if( aEdge == ep )
-        {
-            ok = true;
+    if( sE == eE )
+        return false;
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+    if( aFlagAll )
+    {
+        vector< LOOP_DATA* >::iterator sF = edges.begin();
 
-            if( aFlagAll || (--sE->second == 0) )
+        while( sF != edges.end() )
+        {
+            if( (*sF)->data == aEdge )
             {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
+                releaseLoopData( *sF, this, NULL );
+                sF = edges.erase( sF );
+                continue;
+            }
 
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
-
-                    ++sF;
-                }
+            ++sF;
+        }
+    }
 
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+    if( aFlagAll || (--sE->second == 0) )
+    {
+        redges.erase( sE );
 
-        ++sE;
-    }   // searched list of entities
+        if( !aFlagUnlink )
+            aEdge->delReference(this);
+    }
 
-    return ok;
+    return true;
 }
 
 
@@ -858,8 +845,8 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
         while( sP != eP )
         {
@@ -867,21 +854,19 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
             {
                 if( aFlagDelEdge )
                 {
-                    while( !(*sF)->pcurves.empty() )
-                    {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
-                    }
-
-                    delEdge( (*sF)->data, false, false );
+                    LOOP_DATA* ldata = *sF;
+                    IGES_ENTITY* data = ldata->data;
+                    edges.erase( sF );
+                    releaseLoopData( ldata, this, aFlagUnlink ? aCurve : NULL );
+                    delEdge( data, false, false );
                 }
                 else
                 {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
                     delete *sP;
-                    (*sF)->pcurves.pop_back();
+                    (*sF)->pcurves.erase( sP );
+
+                    if( !aFlagUnlink )
+                        aCurve->delReference(this);
                 }
 
                 return true;
@@ -935,11 +920,11 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         {
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From 63a20284a197cbe0102a601728cdb5b6fe54b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 076/198] fix: Loop: edges of an invalid type were accepted

---
 src/entities/entity508.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index bb4e770..6d9bff5 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -794,6 +794,12 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    if( NULL == aCurve )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed for PS curve\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -905,6 +911,15 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         return false;
     }
 
+    int eType = aEdge->data->GetEntityType();
+
+    if( ( aEdge->isVertex && ENT_VERTEX != eType )
+        || ( !aEdge->isVertex && ENT_EDGE != eType ) )
+    {
+        ERRMSG << "\n +[BUG] invalid entity type (" << eType << ") for edge\n";
+        return false;
+    }
+
     if( !addEdge( aEdge->data ) )
     {
         ERRMSG << "\n +[INFO] could not add edge to list\n";
-- 
2.43.0


From ee0db25d9db9cb82e128a26235932853130c5dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 077/198] fix: Loop: the last parameter space curve of each
 edge was not written

---
 src/entities/entity508.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6d9bff5..03d50ec 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -248,7 +248,15 @@ bool IGES_ENTITY_508::format( int &index )
 
     vector< LOOP_DATA* >::iterator sV = edges.begin();
     vector< LOOP_DATA* >::iterator eV = edges.end();
-    vector< LOOP_DATA* >::iterator iV = --edges.end();
+    vector< LOOP_DATA* >::iterator iV = eV;
+
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] the Loop has no edges\n";
+        return false;
+    }
+
+    --iV;
     int acc = 0;
 
     while( sV != eV )
@@ -297,7 +305,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -307,7 +315,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -325,7 +333,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && (sP + 1) == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
-- 
2.43.0


From f8606f0fa06888da281cd3074a0ed3c7d2558626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 078/198] fix: Loop: GetLoopData() did not return the size of
 the list

---
 src/entities/entity508.cpp   | 2 +-
 src/include/core/entity508.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 03d50ec..dc49366 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -896,7 +896,7 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 }
 
 
-bool IGES_ENTITY_508::GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList )
+bool IGES_ENTITY_508::GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList )
 {
     if( edges.empty() )
     {
diff --git a/src/include/core/entity508.h b/src/include/core/entity508.h
index 0105663..f530f02 100644
--- a/src/include/core/entity508.h
+++ b/src/include/core/entity508.h
@@ -165,7 +165,7 @@ public:
      * returns a pointer to the list of data structures
      * representing this loop entity.
      */
-    bool GetLoopData( size_t aListSize, LOOP_DATA**& aEdgeList );
+    bool GetLoopData( size_t& aListSize, LOOP_DATA**& aEdgeList );
 
 
     /**
-- 
2.43.0


From 1a936bbbc458db04c2ddf0bf9fe92b2fea2270c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 079/198] fix: Loop: SetEntityForm() ignored a valid form

---
 src/entities/entity508.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index dc49366..18e36b7 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -671,7 +671,10 @@ bool IGES_ENTITY_508::readPD(std::ifstream &aFile, int &aSequenceVar)
 bool IGES_ENTITY_508::SetEntityForm( int aForm )
 {
     if( 1 == aForm || 0 == aForm )
+    {
+        form = aForm;
         return true;
+    }
 
     // note: the specification document states that the available forms are
     // 0 and 1, but only Form 1 is specified. Assuming that the specification
-- 
2.43.0


From a23969e0b13e05352192fed0300ef39383552870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 080/198] fix: Face: a loop used twice left a dangling pointer

---
 src/entities/entity510.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..2333407 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -116,6 +116,14 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
+    if( dup )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] duplicate reference to the surface entity\n";
+        msurface = NULL;
+        iloops.clear();
+        return false;
+    }
+
     list<int>::iterator sL = iloops.begin();
     list<int>::iterator eL = iloops.end();
 
@@ -145,6 +153,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate reference to a loop\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
-- 
2.43.0


From 0798162226602b8a41ec10bea52b5a6f531d56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 081/198] fix: Face: GetBounds() dereferenced an empty list

---
 src/entities/entity510.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 2333407..53b763a 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -548,6 +548,7 @@ bool IGES_ENTITY_510::GetBounds( size_t& aListSize, IGES_ENTITY_508**& aBoundsLi
     {
         aListSize = 0;
         aBoundsList = NULL;
+        return false;
     }
 
     aListSize = mloops.size();
-- 
2.43.0


From 92bdc94a44375f58f23836925b003b1e5e0445c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 082/198] fix: Face: AddBound() and SetSurface() did not
 register as a parent of the entity

---
 src/entities/entity510.cpp | 42 ++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 53b763a..b3ff0a9 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -562,10 +562,21 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    bool dup = false;
+
+    if( !aLoop->addReference(this, dup) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    // note: it is never necessary to use a boundary more than once
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG] duplicate reference to loop\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -580,6 +591,29 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    if( !checkSurfType( aSurface ) )
+        return false;
+
+    bool dup = false;
+
+    if( !aSurface->addReference(this, dup) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG] duplicate reference to surface entity\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference(this);
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From 403a03e6414b8ef453d1af0df7f144205f2aa258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 083/198] fix: Shell: a face used twice left a dangling pointer

---
 src/entities/entity514.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..b294501 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -115,6 +115,13 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] duplicate reference to a face\n";
+            ifaces.clear();
+            return false;
+        }
+
         mfaces.push_back( pair<IGES_ENTITY_510*, bool>( (IGES_ENTITY_510*)ep, sF->second ) );
         ++sF;
     }
-- 
2.43.0


From f242738d8b62f5a921cc1626afb9f5c35aaa00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 084/198] fix: Shell: default form is 1, form 2 (open shell)
 could not be read

---
 src/entities/entity514.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index b294501..ddc57dd 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -41,6 +41,7 @@ using namespace std;
 IGES_ENTITY_514::IGES_ENTITY_514( IGES* aParent ) : IGES_ENTITY( aParent )
 {
     entityType = 514;
+    form = 1;
     visible = true;
 
     return;
@@ -305,7 +306,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From 35d812663a872b77d0e9b4009ad3df23a6541be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 085/198] fix: Edge List: call through the base class, the
 Vertex List may be under destruction

---
 src/entities/entity504.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b8a9603..1338560 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -308,7 +308,7 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
     {
         if( aChildEntity == (IGES_ENTITY*)sL->first )
         {
-            sL->first->delReference(this);
+            aChildEntity->delReference(this);
             vertices.erase( sL );
 
             // we must disassociate all curves referencing the vertex list
-- 
2.43.0


From d480b7fca19073a6df84d3a33c60393a604823e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 086/198] fix: blanks around the delimeter fields of the Global
 section are legal

---
 src/iges/iges.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 4c6ad27..d273e61 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1073,15 +1073,19 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     int idx = 0;
     char delim = globalData.pdelim;
 
+    // note: blanks may precede a parameter or its delimeter
+    while( globs[idx] == ' ' )
+        ++idx;
+
     if( globs[idx] != ',' )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") || idx + 2 >= (int)globs.length() )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
             return false;
         }
 
-        delim = globs[2];
+        delim = globs[idx + 2];
 
         if( delim <= 0x20 || delim >= 0x7f || delim == ';'
             || delim == 0x2b || delim == 0x2d || delim == 0x2e
@@ -1094,6 +1098,9 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         globalData.pdelim = delim;
         idx += 3;
+
+        while( globs[idx] == ' ' )
+            ++idx;
     }
 
     if( globs[idx] != delim )
@@ -1107,9 +1114,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     char rdelim = globalData.rdelim;
 
     // G2: record delimeter: REQUIRED DEFAULT ';'
+    while( globs[idx] == ' ' )
+        ++idx;
+
     if( globs[idx] != delim )
     {
-        if( globs.compare(idx, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") || idx + 2 >= (int)globs.length() )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1128,6 +1138,9 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         globalData.rdelim = rdelim;
         idx += 3;
+
+        while( globs[idx] == ' ' )
+            ++idx;
     }
 
     if( globs[idx] != delim )
-- 
2.43.0


From b7a2557a0a1d6bf085fd4ea87b0b213f38c33428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 087/198] fix: an unsupported entity must not keep pointers to
 a deleted DE child

---
 src/entities/entityNULL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index c8a4026..de33579 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -182,8 +182,9 @@ bool IGES_ENTITY_NULL::associate(std::vector<IGES_ENTITY *> *entities)
 
 bool IGES_ENTITY_NULL::unlink(IGES_ENTITY *aChild)
 {
-    // there are no properly established links so in
-    // effect this routine always succeeds
+    // the only properly established links are those of the Directory Entry;
+    // in effect this routine always succeeds
+    IGES_ENTITY::unlink( aChild );
     return true;
 }
 
-- 
2.43.0


From 1f8c2eebda06849e55f5b183305fc720c7ef062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 088/198] fix: Edge List: no virtual call into a Vertex List
 under destruction

---
 src/entities/entity504.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 1338560..eb5f699 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -308,7 +308,7 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
     {
         if( aChildEntity == (IGES_ENTITY*)sL->first )
         {
-            aChildEntity->delReference(this);
+            // note: the Vertex List is under destruction and retains no references
             vertices.erase( sL );
 
             // we must disassociate all curves referencing the vertex list
-- 
2.43.0


From 88b6febe91faa0347c13ba0ea1fbcb99905821cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 089/198] fix: an entity must not become its own optional
 pointer

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 858995a..3275db2 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -364,6 +364,12 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
         return false;
     }
 
+    if( aParentEntity == this )
+    {
+        ERRMSG << "\n + [BUG] self-reference requested\n";
+        return false;
+    }
+
     // Ensure we have no direct circular references
     if( aParentEntity == pStructure || aParentEntity == pLineFontPattern
         || aParentEntity == pLevel || aParentEntity == pView
-- 
2.43.0


From ebace24a81fede5e3e3c73f8879c494c3f53ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 090/198] fix: NURBS curve: queries must not let SISL alter the
 data of a curve with excess knots

---
 src/entities/entity126.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9c9f459..eddc8d7 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -24,6 +24,7 @@
  *
  */
 
+#include <cmath>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -851,6 +852,15 @@ bool IGES_ENTITY_126::GetNormal( MCAD_POINT& aNorm )
 // a rational curve to be multiplied by their weight
 SISLCurve* IGES_ENTITY_126::makeCurve( void )
 {
+    // note: if the multiplicity of the first or last knot exceeds the order of the
+    // curve then SISL discards knots and coefficients within the arrays given to it
+    // and with overlapping copies; such a curve cannot be evaluated here.
+    double tol = 1e-14 * max( 1.0, max( fabs( knots[0] ), fabs( knots[nCoeffs + M] ) ) );
+
+    if( fabs( knots[M + 1] - knots[0] ) <= tol
+        || fabs( knots[nCoeffs + M] - knots[nCoeffs - 1] ) <= tol )
+        return NULL;
+
     if( PROP3 )
         return newCurve( nCoeffs, M + 1, knots, coeffs, 1, 3, 1 );
 
-- 
2.43.0


From d51c66977300ba133c2f4d2ff55afb8d22117cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 091/198] fix: NURBS curve: determine whether a curve set via
 the API is closed (a closed curve was rejected by SetClosedCurve)

---
 src/entities/entity126.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index eddc8d7..c004b3f 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1174,10 +1174,16 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     else
         PROP1 = 0;
 
-    PROP2 = 0;  // assume an open curve (PROP2 value required by spec; unknown if anyone uses it)
+    PROP2 = 0;  // open curve (PROP2 value required by spec)
     PROP4 = 0;  // assume a non-periodic curve (PROP4 value is purely informational)
 
-    // XXX - TO BE IMPLEMENTED: evaluate the NURBS at the first and last points
+    // evaluate the NURBS at the first and last points to determine if it is closed
+    MCAD_POINT p0;
+    MCAD_POINT p1;
+
+    if( GetStartPoint( p0, false ) && GetEndPoint( p1, false )
+        && PointMatches( p0, p1, parent ? parent->globalData.minResolution : 1e-8 ) )
+        PROP2 = 1;
 
     // note: Since PROP4 is only informational there will be no attempt to determine periodicity
 
-- 
2.43.0


From 82b5ed5b1b34a1059e449052f05787ecb0dd24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 092/198] fix: control characters in text must not break the
 layout of output records

---
 src/entities/iges_entity.cpp |  4 ++--
 src/iges/iges.cpp            |  2 +-
 src/iges/iges_io.cpp         | 20 ++++++++++++++++++--
 src/include/core/iges_io.h   |  9 +++++++++
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 3275db2..ccf07cd 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2497,7 +2497,7 @@ bool IGES_ENTITY::SetLineWeightNum( int aLineWeight )
 
 bool IGES_ENTITY::SetLabel(const std::string aLabel)
 {
-    label = aLabel.substr(0, 8);
+    label = PrintableText( aLabel.substr(0, 8) );
 
     if( aLabel.length() > 8 )
     {
@@ -2828,7 +2828,7 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 64 );
+            tmp = PrintableText( sCom->substr( sidx, 64 ) );
             sidx += tmp.length();
 
             if( tmp.length() < 64 )
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d273e61..e78625e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1951,7 +1951,7 @@ bool IGES::AddToHeader( const char*& comments )
 
     vStartSection.clear();
 
-    std::string tStr = comments;
+    std::string tStr = PrintableText( comments );
     std::string tStr1;
 
     size_t slen = tStr.length();
diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index efff013..5a97e0a 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -843,6 +843,22 @@ bool GetHConst( const std::string& tStr, std::string& hConst )
     return true;
 }
 
+// replace control characters, which would break the record layout, with blanks
+std::string PrintableText( const std::string& aText )
+{
+    std::string tmp( aText );
+
+    for( size_t i = 0; i < tmp.length(); ++i )
+    {
+        unsigned char c = (unsigned char)tmp[i];
+
+        if( c < 0x20 || c == 0x7f )
+            tmp[i] = ' ';
+    }
+
+    return tmp;
+}
+
 // convert the string in tStr to a Hollerith string and append to the Global Section fOut
 bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
                  int& index, char pd, char rd, char delim )
@@ -896,7 +912,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
     }
 
     // concatenate the Hollerith string
-    hc += tStr + delim;
+    hc += PrintableText( tStr ) + delim;
 
     size_t sz = hc.length();
     size_t sidx;
@@ -1006,7 +1022,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
     }
 
     // concatenate the Hollerith string
-    hc += tStr + delim;
+    hc += PrintableText( tStr ) + delim;
 
     size_t sz = hc.length();
     size_t sidx;
diff --git a/src/include/core/iges_io.h b/src/include/core/iges_io.h
index 8d27c03..171e01e 100644
--- a/src/include/core/iges_io.h
+++ b/src/include/core/iges_io.h
@@ -218,6 +218,15 @@ bool AddSecItem( std::string& tStr, std::string& fStr, std::string& fOut,
                  int& index, char pd, char rd );
 
 
+/**
+ * Function PrintableText
+ * returns a copy of the text with all control characters replaced by blanks
+ * so that the text may be placed in a fixed length record
+ *
+ * @param aText = text to be included in an output record
+ */
+std::string PrintableText( const std::string& aText );
+
 /**
  * Function AddSecHStr
  * convert a string into a Hollerith string and append to the Global Section data;
-- 
2.43.0


From de9705a3cbdfa83a3efaca13386fcf6b1510c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 093/198] fix: refuse to write a file with invalid delimiters

---
 src/iges/iges.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e78625e..ee13c3c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -628,6 +628,24 @@ bool IGES::Read( const char* aFileName )
 }
 
 
+// check for delimiters which the specification does not permit
+static bool validDelimiters( char aParamDelim, char aRecordDelim )
+{
+    const char delims[2] = { aParamDelim, aRecordDelim };
+
+    for( int i = 0; i < 2; ++i )
+    {
+        char c = delims[i];
+
+        if( c <= 0x20 || c >= 0x7f || c == '+' || c == '-' || c == '.'
+            || c == 'D' || c == 'E' || c == 'H' || ( c >= '0' && c <= '9' ) )
+            return false;
+    }
+
+    return aParamDelim != aRecordDelim;
+}
+
+
 // open a file with the given name and write out all data
 bool IGES::Write( const char* aFileName, bool fOverwrite )
 {
@@ -639,6 +657,12 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         return false;
     }
 
+    if( !validDelimiters( globalData.pdelim, globalData.rdelim ) )
+    {
+        ERRMSG << "\n + [INFO] invalid delimiters in the global data\n";
+        return false;
+    }
+
     Cull();
 
     if( entities.empty() )
-- 
2.43.0


From cfc0b70943bc89e44fab66bc77f316f47e2c6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 094/198] fix: accept a semicolon as the parameter delimiter

---
 src/iges/iges.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index ee13c3c..672c0bf 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1111,7 +1111,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         delim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
+        if( delim <= 0x20 || delim >= 0x7f
             || delim == 0x2b || delim == 0x2d || delim == 0x2e
             || delim == 'D' || delim == 'E' || delim == 'H'
             || ( delim >= 0x30 && delim <= 0x39 ) )
@@ -1174,6 +1174,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         return false;
     }
 
+    if( rdelim == delim )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] parameter and record delimeters are the same\n";
+        return false;
+    }
+
     ++idx;
 
     // G3: Product ID, Sending System, REQUIRED NO DEFAULT
-- 
2.43.0


From 2f7d731870d090d28eff05d334d3166c21df269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 095/198] fix: a model space scale must be positive

---
 src/iges/iges.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 672c0bf..8f7a1bd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -663,6 +663,13 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
         return false;
     }
 
+    if( !( globalData.modelScale > 0.0 ) )
+    {
+        ERRMSG << "\n + [INFO] invalid model scale in the global data (";
+        cerr << globalData.modelScale << ")\n";
+        return false;
+    }
+
     Cull();
 
     if( entities.empty() )
@@ -1352,6 +1359,13 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         return false;
     }
 
+    if( !( globalData.modelScale > 0.0 ) )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] invalid Model Space Scale (";
+        cerr << globalData.modelScale << ")\n";
+        return false;
+    }
+
     // G14: Model Units
     int tint;
     int idefault = 1;
-- 
2.43.0


From 5dcbf56c18d197503805acc0a8bb646fd16ddb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 096/198] fix: Global Section: write the model scale and
 resolution at full precision

---
 src/iges/iges.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8f7a1bd..46bd18f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2106,6 +2106,10 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
+    // write out reals of the Global Section at full precision; the
+    // resolution of the model applies to its coordinates only
+    const double fullRes = 1e-300;
+
     if( globalData.minResolution < 1e-12 )
         globalData.minResolution = 0.001;
 
@@ -2268,7 +2272,7 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 13: (Real) Model Space Scale
     // REQ DEF = 1.0
-    if( !FormatPDREal( tstr, globalData.modelScale, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.modelScale, pd, fullRes ) )
     {
         ERRMSG << "\n + [INFO] failed to format Model Scale\n";
         return false;
@@ -2325,7 +2329,7 @@ bool IGES::writeGlobals( std::ofstream& file )
     if( globalData.maxLinewidth < 1e-6 )
         globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, fullRes ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
@@ -2364,7 +2368,7 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 19: (Real) Min. user intended resolution/granularity
     // REQ NODEF
-    if( !FormatPDREal( tstr, globalData.minResolution, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.minResolution, pd, fullRes ) )
     {
         ERRMSG << "\n + [INFO] failed to format Min. Intended Resolution\n";
         return false;
-- 
2.43.0


From 90095f2ce2b9fead7e1f78fefef669ae4318721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 097/198] fix: keep a small resolution which is the result of a
 change of units

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 46bd18f..531860e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2110,7 +2110,7 @@ bool IGES::writeGlobals( std::ofstream& file )
     // resolution of the model applies to its coordinates only
     const double fullRes = 1e-300;
 
-    if( globalData.minResolution < 1e-12 )
+    if( !( globalData.minResolution > 0.0 ) )
         globalData.minResolution = 0.001;
 
     // Item 1: (HStr) Parameter Delimeter
-- 
2.43.0


From f8ff8379b30e025f832f613d08980ad1324c9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 098/198] fix: Curve on Parametric Surface: reject references
 to entities of an unsuitable type

---
 src/entities/entity142.cpp | 95 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 95 insertions(+)

diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 83c99f8..d3eee75 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -68,6 +68,59 @@ IGES_ENTITY_142::~IGES_ENTITY_142()
 }
 
 
+// determine if the entity is a surface on which a curve may lie
+static bool isSurface142( IGES_ENTITY* aEntity )
+{
+    switch( aEntity->GetEntityType() )
+    {
+        case ENT_PLANE:
+        case ENT_PARAM_SPLINE_SURFACE:
+        case ENT_RULED_SURFACE:
+        case ENT_SURFACE_OF_REVOLUTION:
+        case ENT_TABULATED_CYLINDER:
+        case ENT_NURBS_SURFACE:
+        case ENT_OFFSET_SURFACE:
+        case ENT_BOUNDED_SURFACE:
+        case ENT_TRIMMED_PARAMETRIC_SURFACE:
+        case ENT_PLANE_SURFACE:
+        case ENT_RIGHT_CIRCULAR_CYLINDRICAL_SURFACE:
+        case ENT_RIGHT_CIRCULAR_CONICAL_SURFACE:
+        case ENT_SPHERICAL_SURFACE:
+        case ENT_TOROIDAL_SURFACE:
+            return true;
+
+        default:
+            break;
+    }
+
+    return false;
+}
+
+
+// determine if the entity is one which may represent a curve
+static bool isCurve142( IGES_ENTITY* aEntity )
+{
+    switch( aEntity->GetEntityType() )
+    {
+        case ENT_CIRCULAR_ARC:
+        case ENT_COMPOSITE_CURVE:
+        case ENT_CONIC_ARC:
+        case ENT_COPIOUS_DATA:
+        case ENT_LINE:
+        case ENT_PARAM_SPLINE_CURVE:
+        case ENT_POINT:
+        case ENT_NURBS_CURVE:
+        case ENT_OFFSET_CURVE:
+            return true;
+
+        default:
+            break;
+    }
+
+    return false;
+}
+
+
 bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
 {
     if( !IGES_ENTITY::associate(entities) )
@@ -91,6 +144,14 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
 
         SPTR = (*entities)[iEnt];
 
+        if( !isSurface142( SPTR ) )
+        {
+            ERRMSG << "\n + [INFO] invalid type (" << SPTR->GetEntityType();
+            cerr << ") of surface entity (DE:" << iSPTR << ")\n";
+            SPTR = NULL;
+            return false;
+        }
+
         if( !SPTR->addReference(this, dup) )
         {
             SPTR = NULL;
@@ -124,6 +185,14 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
 
         BPTR = (*entities)[iEnt];
 
+        if( !isCurve142( BPTR ) )
+        {
+            ERRMSG << "\n + [INFO] invalid type (" << BPTR->GetEntityType();
+            cerr << ") of boundary entity (DE:" << iBPTR << ")\n";
+            BPTR = NULL;
+            return false;
+        }
+
         if( !BPTR->addReference(this, dup) )
         {
             BPTR = NULL;
@@ -156,6 +225,14 @@ bool IGES_ENTITY_142::associate(std::vector<IGES_ENTITY *> *entities)
 
         CPTR = (*entities)[iEnt];
 
+        if( !isCurve142( CPTR ) )
+        {
+            ERRMSG << "\n + [INFO] invalid type (" << CPTR->GetEntityType();
+            cerr << ") of bounding curve entity (DE:" << iCPTR << ")\n";
+            CPTR = NULL;
+            return false;
+        }
+
         if( !CPTR->addReference(this, dup) )
         {
             CPTR = NULL;
@@ -558,6 +635,12 @@ bool IGES_ENTITY_142::GetSPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
 {
+    if( NULL != aPtr && !isSurface142( aPtr ) )
+    {
+        ERRMSG << "\n + [INFO] invalid type of surface entity (" << aPtr->GetEntityType() << ")\n";
+        return false;
+    }
+
     if( NULL != SPTR )
         SPTR->delReference(this);
 
@@ -604,6 +687,12 @@ bool IGES_ENTITY_142::GetBPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetBPTR( IGES_ENTITY* aPtr )
 {
+    if( NULL != aPtr && !isCurve142( aPtr ) )
+    {
+        ERRMSG << "\n + [INFO] invalid type of boundary entity (" << aPtr->GetEntityType() << ")\n";
+        return false;
+    }
+
     if( NULL != BPTR )
         BPTR->delReference(this);
 
@@ -650,6 +739,12 @@ bool IGES_ENTITY_142::GetCPTR( IGES_ENTITY** aPtr )
 
 bool IGES_ENTITY_142::SetCPTR( IGES_ENTITY* aPtr )
 {
+    if( NULL != aPtr && !isCurve142( aPtr ) )
+    {
+        ERRMSG << "\n + [INFO] invalid type of bounding curve entity (" << aPtr->GetEntityType() << ")\n";
+        return false;
+    }
+
     if( NULL != CPTR )
         CPTR->delReference(this);
 
-- 
2.43.0


From c4884180c6b8087d7110305e46e43ef7c81d4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 099/198] fix: check the data of a file with a tolerance which
 is in the units of the file

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 531860e..9e5f685 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -617,8 +617,12 @@ bool IGES::Read( const char* aFileName )
         }
     }
 
+    // note: the data and the tolerances remain in the units of the file
+    // until all entities have been read and checked
     if( globalData.convert )
     {
+        globalData.minResolution *= globalData.cf;
+
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
     }
@@ -1598,7 +1602,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // apply a scale if the model scale is not 1.0
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
-        globalData.minResolution /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
         globalData.convert = true;
@@ -1606,7 +1609,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
     if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
-        globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.convert = true;
-- 
2.43.0


From ac495260e358dd298adbf58ebe21de0065263138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 100/198] fix: scale the lengths of the Global Section with the
 units and scale of the model

---
 src/iges/iges.cpp       | 18 ++++++++++++++----
 src/include/core/iges.h |  2 ++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9e5f685..c175b21 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -621,7 +621,7 @@ bool IGES::Read( const char* aFileName )
     // until all entities have been read and checked
     if( globalData.convert )
     {
-        globalData.minResolution *= globalData.cf;
+        scaleGlobals( globalData.cf );
 
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
@@ -1876,6 +1876,16 @@ void IGES::Cull( bool vicious )
 }
 
 
+// scale the lengths which are part of the global data
+void IGES::scaleGlobals( double sf )
+{
+    globalData.minResolution *= sf;
+    globalData.maxLinewidth *= sf;
+    globalData.maxCoordinateValue *= sf;
+    return;
+}
+
+
 bool IGES::ConvertUnits( IGES_UNIT newUnit )
 {
     if( globalData.unitsFlag == newUnit )
@@ -1902,7 +1912,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     if( cf > 0.9999998 && cf < 1.000001 )
         return true;
 
-    globalData.minResolution *= cf;
+    scaleGlobals( cf );
 
     // scale all existing entities
     size_t nEnt = entities.size();
@@ -1937,7 +1947,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= cf;
+    scaleGlobals( cf );
     globalData.modelScale = aScale;
 
     // scale all existing entities
@@ -2328,7 +2338,7 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
-    if( globalData.maxLinewidth < 1e-6 )
+    if( !( globalData.maxLinewidth > 0.0 ) )
         globalData.maxLinewidth = 1.0;
 
     if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, fullRes ) )
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index b9f6a12..94012d0 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -112,6 +112,8 @@ private:
     bool writeStart( std::ofstream& file );
     // write out the GLOBAL SECTION
     bool writeGlobals( std::ofstream& file );
+    // scale the lengths which are part of the global data
+    void scaleGlobals( double sf );
 
 public:
     IGES();
-- 
2.43.0


From eb832bccf5c69fe83041cc9b0313e72809da6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 101/198] fix: Loop: reject a parameter space curve which is
 not a curve

---
 src/entities/entity508.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 18e36b7..1b00325 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -811,6 +811,24 @@ bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
+    switch( aCurve->GetEntityType() )
+    {
+        case ENT_CIRCULAR_ARC:
+        case ENT_COMPOSITE_CURVE:
+        case ENT_CONIC_ARC:
+        case ENT_COPIOUS_DATA:
+        case ENT_LINE:
+        case ENT_PARAM_SPLINE_CURVE:
+        case ENT_NURBS_CURVE:
+        case ENT_OFFSET_CURVE:
+            break;
+
+        default:
+            ERRMSG << "\n + [INFO] invalid entity type (" << aCurve->GetEntityType();
+            cerr << ") for PS curve\n";
+            return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
-- 
2.43.0


From 94b8ad1875bb4fa6c2d36a8a88f721e0153b89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 102/198] fix: keep the name of the units in step with the
 units flag

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c175b21..cc55a78 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1611,6 +1611,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     {
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
+        globalData.unitsName = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
         globalData.convert = true;
     }
 
@@ -1927,6 +1928,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     }
 
     globalData.unitsFlag = newUnit;
+    globalData.unitsName = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
 
     return true;
 }
-- 
2.43.0


From 509095869e0b0e68f2451c888f09e17bd7a5ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 103/198] fix: a defaulted Specification Version is version 3

---
 src/iges/iges.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cc55a78..e3a554a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -66,7 +66,6 @@ struct tm *gmtime_r(time_t const *timep, struct tm *tmp)
 #endif
 
 // Note: a default of 11 = IGES5.3
-#define DEFAULT_IGES_VERSION (11)
 
 
 int IGES::idxPartNum = 1;
@@ -1521,7 +1520,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        idefault = DEFAULT_IGES_VERSION;
+        idefault = 3;
 
         if( !ParseInt( globs, idx, globalData.igesVersion, eor, delim, rdelim, &idefault ) )
         {
-- 
2.43.0


From a486d82e5e6e5cf377799de2e47214bbbd94e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 104/198] fix: Read: start with fresh global data and an empty
 START section

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e3a554a..097cefa 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -65,8 +65,6 @@ struct tm *gmtime_r(time_t const *timep, struct tm *tmp)
 }
 #endif
 
-// Note: a default of 11 = IGES5.3
-
 
 int IGES::idxPartNum = 1;
 int IGES::idxAssyNum = 1;
@@ -436,6 +434,7 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+
     ifstream file;
 
     file.open( aFileName, ios::in | ios::binary );
@@ -447,6 +446,9 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // no item of the file may depend on what was there before
+    init();
+
     // read the FLAG/START section
     IGES_RECORD rec;
 
-- 
2.43.0


From 2cbb25ac43e71ada2050b0d65c022532892ab413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 105/198] fix: do not scale lines, arcs and transforms in the
 parameter space of a surface

---
 src/entities/entity100.cpp     |  4 ++
 src/entities/entity104.cpp     |  4 ++
 src/entities/entity110.cpp     |  4 ++
 src/entities/entity124.cpp     |  4 ++
 src/entities/entity126.cpp     | 53 ++---------------------
 src/entities/iges_entity.cpp   | 77 ++++++++++++++++++++++++++++++++++
 src/include/core/iges_entity.h | 18 ++++++--
 7 files changed, 111 insertions(+), 53 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 489259a..9a13494 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -405,6 +405,10 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_100::rescale( double sf )
 {
+    // the coordinates in the parameter space of a surface are not lengths
+    if( isParameterSpace() )
+        return true;
+
     zOffset *= sf;
     xCenter *= sf;
     yCenter *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 073fc4b..962cf37 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,6 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    // the coordinates in the parameter space of a surface are not lengths
+    if( isParameterSpace() )
+        return true;
+
     // note: the quadratic coefficients A..C are invariant; the others
     // must scale with the order of the length in order to retain the conic
     D *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index d926109..e1fe5f4 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -153,6 +153,10 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    // the coordinates in the parameter space of a surface are not lengths
+    if( isParameterSpace() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
     Z1 *= sf;
diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index d425f7a..8e2167b 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -215,6 +215,10 @@ bool IGES_ENTITY_124::format( int &index )
 
 bool IGES_ENTITY_124::rescale( double sf )
 {
+    // the coordinates in the parameter space of a surface are not lengths
+    if( isParameterSpace() )
+        return true;
+
     // CAVEAT: we can safely assume that the offset must
     // be scaled; however we cannot in general reliably
     // scale the matrix component. This scaling of the
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index c004b3f..7ad85ff 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -310,56 +310,9 @@ bool IGES_ENTITY_126::format( int &index )
 
 bool IGES_ENTITY_126::rescale( double sf )
 {
-    // Before scaling we must determine if this curve is a member of the BPTR
-    // of a Curve on a Parametric Surface (BPTR to Entity 144). We must traverse
-    // the ancestors of this NURBS curve and decide whether or not it
-    // makes sense to scale the control points. If a Curve on Surface is scaled,
-    // only the Z values should be scaled
-
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        // guard against circular references
-        if( std::find( eps.begin(), eps.end(), ep ) != eps.end() )
-            break;
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
-
-    bool scaleXY = true;
-
-    if( cps )
-    {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
-    }
+    // If this curve lies in the parameter space of a surface then its
+    // coordinates are not lengths and only the Z values should be scaled
+    bool scaleXY = !isParameterSpace();
 
     if( NULL == coeffs )
         return true;
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ccf07cd..fa97b99 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3102,6 +3102,83 @@ bool IGES_ENTITY::SetHierarchy( IGES_STAT_HIER aHierarchy )
 }
 
 
+bool IGES_ENTITY::isParameterSpace( int aDepth )
+{
+    // note: the limit also guards against circular references
+    if( aDepth > 16 )
+        return false;
+
+    bool isTransform = ( ENT_TRANSFORMATION_MATRIX == entityType );
+    std::list<IGES_ENTITY*>::iterator sR = refs.begin();
+    std::list<IGES_ENTITY*>::iterator eR = refs.end();
+
+    while( sR != eR )
+    {
+        bool isPS = false;
+
+        switch( (*sR)->GetEntityType() )
+        {
+            case ENT_CURVE_ON_PARAMETRIC_SURFACE:
+            {
+                IGES_ENTITY* bp = NULL;
+
+                if( ((IGES_ENTITY_142*)(*sR))->GetBPTR( &bp ) && bp == this )
+                    isPS = true;
+
+                break;
+            }
+
+            case ENT_LOOP:
+            {
+                size_t nEdge = 0;
+                LOOP_DATA** edge = NULL;
+
+                if( !((IGES_ENTITY_508*)(*sR))->GetLoopData( nEdge, edge ) )
+                    break;
+
+                for( size_t i = 0; i < nEdge && !isPS; ++i )
+                {
+                    for( size_t j = 0; j < edge[i]->pcurves.size(); ++j )
+                    {
+                        if( edge[i]->pcurves[j]->curve == this )
+                            isPS = true;
+                    }
+                }
+
+                break;
+            }
+
+            case ENT_COMPOSITE_CURVE:
+                isPS = (*sR)->isParameterSpace( aDepth + 1 );
+                break;
+
+            case ENT_CIRCULAR_ARC:
+            case ENT_CONIC_ARC:
+            case ENT_LINE:
+            case ENT_TRANSFORMATION_MATRIX:
+            case ENT_NURBS_CURVE:
+
+                if( isTransform )
+                    isPS = (*sR)->isParameterSpace( aDepth + 1 );
+
+                break;
+
+            default:
+                break;
+        }
+
+        // a curve is in parameter space if anything uses it as such;
+        // a transform may have other users which are not
+        if( isPS != isTransform )
+            return isPS;
+
+        ++sR;
+    }
+
+    return isTransform && !refs.empty();
+}
+
+
 IGES_ENTITY* IGES_ENTITY::getFirstParentRef( void )
 {
     if( refs.empty() )
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..a3facba 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -184,13 +184,25 @@ public:
      * Function getFirstParentRef
      * returns a pointer to the first parent entity in this
      * entity's Reference List. If the entity has no parents
-     * then NULL is returned.  This function is used internally
-     * to decide how the parameters of a NURBS curve should be
-     * scaled.
+     * then NULL is returned.
      */
     IGES_ENTITY* getFirstParentRef( void );
 
 
+    /**
+     * Function isParameterSpace
+     * returns true if the entity is (part of) a curve in the parameter
+     * space of a surface, that is the BPTR of a Curve on a Parametric
+     * Surface (Entity 142) or a parameter space curve of a Loop
+     * (Entity 508), or a transform which is used by such curves only.
+     * The coordinates of such an entity are not lengths and must not
+     * be scaled with the units of the model.
+     *
+     * @param aDepth = current depth of the search (internal use)
+     */
+    bool isParameterSpace( int aDepth = 0 );
+
+
     /**
      * Function associate
      * associates DE pointers with other entities after reading all data;
-- 
2.43.0


From ce5c4e40ac43b5d8b88556b3b34b413865ddb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 106/198] fix: write the coefficients of a conic arc at full
 precision

---
 src/entities/entity104.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 962cf37..0b9020f 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -176,8 +176,8 @@ bool IGES_ENTITY_104::format( int &index )
     {
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
-        // coefficients
-        if( !FormatPDREal( tStr, *dp[i], pd, 1e-10 ) )
+        // coefficients; the coefficients may be of any magnitude
+        if( !FormatPDREal( tStr, *dp[i], pd, i < 6 ? 1e-300 : 1e-10 ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
-- 
2.43.0


From 24414dbf8604a9433b0da229df1e53a038ab9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 107/198] fix: ChangeModelScale: reject NaN

---
 src/iges/iges.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 097cefa..01ec3a7 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1937,7 +1937,8 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
 
 bool IGES::ChangeModelScale( double aScale )
 {
-    if( aScale < 6.0e-8 )
+    // note: NaN must be rejected as well
+    if( !(aScale >= 6.0e-8) )
     {
         ERRMSG << "\n + [INFO] rejecting scale (< 6.0e-8)\n";
         return false;
-- 
2.43.0


From f820e4c117cee988067e094ba45458e160fdf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 108/198] fix: write numbers which are not lengths at a
 precision independent of the unit of length

---
 src/entities/entity100.cpp   | 4 ++++
 src/entities/entity104.cpp   | 6 +++---
 src/entities/entity110.cpp   | 4 ++++
 src/entities/entity124.cpp   | 6 +++++-
 src/entities/entity128.cpp   | 2 +-
 src/entities/entity154.cpp   | 4 ++--
 src/entities/entity164.cpp   | 4 ++--
 src/entities/entity408.cpp   | 4 ++--
 src/include/core/iges_base.h | 4 ++++
 9 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 9a13494..3b28722 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -105,6 +105,10 @@ bool IGES_ENTITY_100::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = parent->globalData.minResolution;
 
+    // coordinates in the parameter space of a surface are not lengths
+    if( uir > IGES_RATIO_RES && isParameterSpace() )
+        uir = IGES_RATIO_RES;
+
     ostringstream ostr;
     ostr << entityType << pd;
     string fStr = ostr.str();
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 0b9020f..fb81d1b 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -176,8 +176,8 @@ bool IGES_ENTITY_104::format( int &index )
     {
         // note: we require a lot of digits since the points
         // of a conic are extremely sensitive to the general
-        // coefficients; the coefficients may be of any magnitude
-        if( !FormatPDREal( tStr, *dp[i], pd, i < 6 ? 1e-300 : 1e-10 ) )
+        // coefficients; they may be of any magnitude
+        if( !FormatPDREal( tStr, *dp[i], pd, 1e-300 ) )
         {
             ERRMSG << "\n + [INFO] could not format datum " << i << "\n";
             return false;
@@ -197,7 +197,7 @@ bool IGES_ENTITY_104::format( int &index )
     else
         idelim = pd;
 
-    if( !FormatPDREal( tStr, *dp[10], idelim, 1e-10 ) )
+    if( !FormatPDREal( tStr, *dp[10], idelim, 1e-300 ) )
     {
         ERRMSG << "\n + [INFO] could not format datum 10\n";
         pdout.clear();
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index e1fe5f4..d57536f 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -98,6 +98,10 @@ bool IGES_ENTITY_110::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = parent->globalData.minResolution;
 
+    // coordinates in the parameter space of a surface are not lengths
+    if( uir > IGES_RATIO_RES && isParameterSpace() )
+        uir = IGES_RATIO_RES;
+
     ostringstream ostr;
     ostr << entityType << pd;
     string lstr = ostr.str();
diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 8e2167b..3a7f076 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -148,6 +148,10 @@ bool IGES_ENTITY_124::format( int &index )
     char rd = parent->globalData.rdelim;
     double uir = parent->globalData.minResolution;
 
+    // coordinates in the parameter space of a surface are not lengths
+    if( uir > IGES_RATIO_RES && isParameterSpace() )
+        uir = IGES_RATIO_RES;
+
     ostringstream ostr;
     ostr << entityType << pd;
     string lstr = ostr.str();
@@ -159,7 +163,7 @@ bool IGES_ENTITY_124::format( int &index )
     {
         for( int j = 0; j < 3; ++j )
         {
-            if( !FormatPDREal( tstr, T.R.v[i][j], pd, uir ) )
+            if( !FormatPDREal( tstr, T.R.v[i][j], pd, IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format Transform::R[";
                 cerr << i << "][" << j << "]\n";
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index ad6f466..85de318 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -117,7 +117,7 @@ bool IGES_ENTITY_128::format( int &index )
 
     char pd = parent->globalData.pdelim;
     char rd = parent->globalData.rdelim;
-    double uir = 1e-8;  // any REAL parameters are NURBS data, maintain high precision
+    double uir = 1e-15;  // any REAL parameters are NURBS data, maintain high precision
 
     if( K1 < 1 )
     {
diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 7889346..96bc3d0 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -115,7 +115,7 @@ bool IGES_ENTITY_154::format( int &index )
     {
         if( i == 7 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -124,7 +124,7 @@ bool IGES_ENTITY_154::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, i < 5 ? uir : IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 46ccc76..ec2eeec 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -184,7 +184,7 @@ bool IGES_ENTITY_164::format( int &index )
     {
         if( i == 3 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -193,7 +193,7 @@ bool IGES_ENTITY_164::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, i < 1 ? uir : IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 585bb19..8381d04 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -166,7 +166,7 @@ bool IGES_ENTITY_408::format( int &index )
     {
         if( i == 3 && extras.empty() )
         {
-            if( !FormatPDREal( tstr, *pt[i], rd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], rd, i < 3 ? uir : IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
@@ -175,7 +175,7 @@ bool IGES_ENTITY_408::format( int &index )
         }
         else
         {
-            if( !FormatPDREal( tstr, *pt[i], pd, uir ) )
+            if( !FormatPDREal( tstr, *pt[i], pd, i < 3 ? uir : IGES_RATIO_RES ) )
             {
                 ERRMSG << "\n + [INFO] could not format datum [";
                 cerr << i << "]\n";
diff --git a/src/include/core/iges_base.h b/src/include/core/iges_base.h
index 0b9f8f2..4111a4b 100644
--- a/src/include/core/iges_base.h
+++ b/src/include/core/iges_base.h
@@ -36,6 +36,10 @@
 // precision used to represent angles
 #define IGES_ANGLE_RES (1.0e-15)
 
+// resolution of numbers which are not lengths, such as the elements of a
+// rotation matrix or direction, a scale factor and surface parameters
+#define IGES_RATIO_RES (1.0e-15)
+
 
 enum IGES_COLOR
 {
-- 
2.43.0


From c4cacf466b08f923153b65929b961292aa45fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 109/198] fix: read arcs whose radius is not much larger than
 the minimum resolution

---
 src/entities/entity100.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 3b28722..ed0e53d 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -360,7 +360,9 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     // acceptance of files
     double uir = 2.0 * parent->globalData.minResolution;
 
-    if( PointMatches( p0, p1, uir ) )
+    // note: the minimum resolution does not apply to an arc which may be in
+    // the parameter space of a surface
+    if( PointMatches( p0, p1, IGES_RATIO_RES ) )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has a radius of 0\n";
-- 
2.43.0


From a4f95471c6cadcd19a45d1ca1dac47b18480eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 110/198] fix: accept arcs whose radii differ by rounding error
 only

---
 src/entities/entity100.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index ed0e53d..cddd9b7 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -375,11 +375,13 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     double d1 = p1.x*p1.x + p1.y*p1.y;
     double d2 = p2.x*p2.x + p2.y*p2.y;
     double dr = sqrt( d2 ) - sqrt( d1 );
+    // rounding error to be expected in the coordinates
+    double de = 1e-12 * ( fabs( xCenter ) + fabs( yCenter ) + sqrt( d1 ) );
     d1 = d2 - d1;
 
     // note: d1 is a difference of squares; for large circles the rounding of
     // the coordinates alone may exceed the resolution so test the radii as well
-    if( fabs( d1 ) > uir && fabs( dr ) > uir )
+    if( fabs( d1 ) > uir && fabs( dr ) > uir && fabs( dr ) > de )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has unequal radii (diff: " << d1 << ") " << uir << "\n";
-- 
2.43.0


From 5cb72f4ec7af8565f1ece91a4c2c1ea6bd3a6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 111/198] fix: setters must not release the previous child
 entity if the new one is rejected

---
 src/entities/entity120.cpp     |  38 +----
 src/entities/entity122.cpp     |  19 +--
 src/entities/entity142.cpp     |  69 +--------
 src/entities/entity144.cpp     |  57 ++------
 src/entities/entity164.cpp     |  26 +---
 src/entities/entity408.cpp     |  33 +----
 src/entities/iges_entity.cpp   | 250 ++++++++++++---------------------
 src/include/core/iges_entity.h |  12 ++
 8 files changed, 127 insertions(+), 377 deletions(-)

diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 55276e4..4dce9ac 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -451,29 +451,12 @@ bool IGES_ENTITY_120::SetL( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( L )
-    {
-        L->delReference(this);
-        L = NULL;
-    }
-
-    bool dup = false;
-
-    if( !aCurve->addReference(this, dup) )
-        return false;
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+    if( !replaceChild( L, aCurve ) )
         return false;
-    }
 
     L = aCurve;
     L->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != L->GetParentIGES() )
-        parent->AddEntity( L );
-
     return true;
 }
 
@@ -510,29 +493,12 @@ bool IGES_ENTITY_120::SetC( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( C )
-    {
-        C->delReference(this);
-        C = NULL;
-    }
-
-    bool dup = false;
-
-    if( !aCurve->addReference(this, dup) )
-        return false;
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+    if( !replaceChild( C, aCurve ) )
         return false;
-    }
 
     C = aCurve;
     C->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != C->GetParentIGES() )
-        parent->AddEntity( C );
-
     return true;
 }
 
diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 750deea..73b13f4 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -404,31 +404,14 @@ bool IGES_ENTITY_122::GetDE( IGES_CURVE*& aPtr )
 
 bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
 {
-    if( DE )
-    {
-        DE->delReference(this);
-        DE = NULL;
-    }
-
     if( !aPtr )
         return false;
 
-    bool dup = false;
-
-    if( !aPtr->addReference(this, dup) )
-        return false;
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+    if( !replaceChild( DE, aPtr ) )
         return false;
-    }
 
     DE = aPtr;
     DE->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != DE->GetParentIGES() )
-        parent->AddEntity( DE );
-
     return true;
 }
diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index d3eee75..42df6fb 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -641,35 +641,16 @@ bool IGES_ENTITY_142::SetSPTR( IGES_ENTITY* aPtr )
         return false;
     }
 
-    if( NULL != SPTR )
-        SPTR->delReference(this);
+    if( !replaceChild( SPTR, aPtr ) )
+        return false;
 
     SPTR = aPtr;
 
     if( NULL == SPTR )
         return true;
 
-    bool dup;
-
-    if( !SPTR->addReference(this, dup) )
-    {
-        SPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        SPTR = NULL;
-        return false;
-    }
-
     SPTR->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != SPTR->GetParentIGES() )
-        parent->AddEntity( SPTR );
-
     return true;
 }
 
@@ -693,35 +674,16 @@ bool IGES_ENTITY_142::SetBPTR( IGES_ENTITY* aPtr )
         return false;
     }
 
-    if( NULL != BPTR )
-        BPTR->delReference(this);
+    if( !replaceChild( BPTR, aPtr ) )
+        return false;
 
     BPTR = aPtr;
 
     if( NULL == BPTR )
         return true;
 
-    bool dup = false;
-
-    if( !BPTR->addReference(this, dup) )
-    {
-        BPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        BPTR = NULL;
-        return false;
-    }
-
     BPTR->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != BPTR->GetParentIGES() )
-        parent->AddEntity( BPTR );
-
     return true;
 }
 
@@ -745,34 +707,15 @@ bool IGES_ENTITY_142::SetCPTR( IGES_ENTITY* aPtr )
         return false;
     }
 
-    if( NULL != CPTR )
-        CPTR->delReference(this);
+    if( !replaceChild( CPTR, aPtr ) )
+        return false;
 
     CPTR = aPtr;
 
     if( NULL == CPTR )
         return true;
 
-    bool dup = false;
-
-    if( !CPTR->addReference(this, dup) )
-    {
-        CPTR = NULL;
-        ERRMSG << "\n + [INFO] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        CPTR = NULL;
-        return false;
-    }
-
     CPTR->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != CPTR->GetParentIGES() )
-        parent->AddEntity( CPTR );
-
     return true;
 }
diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 71965b3..63ea16f 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -676,35 +676,19 @@ bool IGES_ENTITY_144::GetPTS( IGES_ENTITY*& aPtr )
 
 bool IGES_ENTITY_144::SetPTS( IGES_ENTITY* aPtr )
 {
-    if( PTS )
-        PTS->delReference(this);
-
-    PTS = aPtr;
-
-    if( NULL == aPtr )
-        return true;
-
-    if( !checkInclusion144( aPtr->GetEntityType()) )
+    if( NULL != aPtr && !checkInclusion144( aPtr->GetEntityType()) )
     {
-        ERRMSG << "\n + [INFO] invalid entity type (" << PTS->GetEntityType() << ") for PTS\n";
-        PTS = NULL;
+        ERRMSG << "\n + [INFO] invalid entity type (" << aPtr->GetEntityType() << ") for PTS\n";
         return false;
     }
 
-    bool dup = false;
-
-    if( !PTS->addReference(this, dup) )
-    {
-        PTS = NULL;
+    if( !replaceChild( PTS, aPtr ) )
         return false;
-    }
 
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTS = NULL;
-        return false;
-    }
+    PTS = aPtr;
+
+    if( NULL == PTS )
+        return true;
 
     PTS->SetDependency( STAT_DEP_PHY );
 
@@ -713,9 +697,6 @@ bool IGES_ENTITY_144::SetPTS( IGES_ENTITY* aPtr )
     else
         N1 = 1;
 
-    if( NULL != parent && parent != PTS->GetParentIGES() )
-        parent->AddEntity( PTS );
-
     return true;
 }
 
@@ -733,36 +714,18 @@ bool IGES_ENTITY_144::GetPTO( IGES_ENTITY_142*& aPtr )
 
 bool IGES_ENTITY_144::SetPTO( IGES_ENTITY_142* aPtr )
 {
-    if( PTO )
-        PTO->delReference(this);
+    if( !replaceChild( PTO, aPtr ) )
+        return false;
 
     PTO = aPtr;
     N1 = 0;
 
-    if( NULL == aPtr )
+    if( NULL == PTO )
         return true;
 
-    bool dup = false;
-
-    if( !PTO->addReference(this, dup) )
-    {
-        PTO = NULL;
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTO = NULL;
-        return false;
-    }
-
     PTO->SetDependency( STAT_DEP_PHY );
     N1 = 1;
 
-    if( NULL != parent && parent != PTO->GetParentIGES() )
-        parent->AddEntity( PTO );
-
     return true;
 }
 
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index ec2eeec..d94729d 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -485,33 +485,11 @@ bool IGES_ENTITY_164::SetClosedCurve( IGES_CURVE* aCurve )
         return false;
     }
 
-    if( PTR )
-    {
-        PTR->delReference(this);
-    }
-
-    PTR = aCurve;
-
-    bool dup = false;
-
-    if( !PTR->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [ERROR] could not register association with closed curve\n";
-        PTR = NULL; // necessary to prevent segfaults
+    if( !replaceChild( PTR, aCurve ) )
         return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        PTR = NULL;
-        return false;
-    }
 
+    PTR = aCurve;
     PTR->SetDependency( STAT_DEP_PHY );
 
-    if( NULL != parent && parent != PTR->GetParentIGES() )
-        parent->AddEntity( PTR );
-
     return true;
 }
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 8381d04..80c9497 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -420,42 +420,17 @@ bool IGES_ENTITY_408::GetDE( IGES_ENTITY_308*& aPtr )
 
 bool IGES_ENTITY_408::SetDE( IGES_ENTITY_308* aPtr )
 {
-    if( DE )
-        DE->delReference(this);
-
-    DE = aPtr;
-
-    if( NULL == aPtr )
-        return true;
-
-    int eT = aPtr->GetEntityType();
-
-    if( eT != ENT_SUBFIGURE_DEFINITION )
+    if( NULL != aPtr && aPtr->GetEntityType() != ENT_SUBFIGURE_DEFINITION )
     {
-        DE = NULL;
         ERRMSG << "\n + [ERROR] invalid entity type (";
-        cerr << eT << "); only type 308 is allowed\n";
-        return false;
-    }
-
-    bool dup = false;
-
-    if( !DE->addReference(this, dup) )
-    {
-        DE = NULL;
-        ERRMSG << "\n + [INFO] could not add child entity reference\n";
+        cerr << aPtr->GetEntityType() << "); only type 308 is allowed\n";
         return false;
     }
 
-    if( dup )
-    {
-        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-        DE = NULL;
+    if( !replaceChild( DE, aPtr ) )
         return false;
-    }
 
-    if( NULL != parent && parent != aPtr->GetParentIGES() )
-        parent->AddEntity( aPtr );
+    DE = aPtr;
 
     return true;
 }
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index fa97b99..036f9ec 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1952,6 +1952,39 @@ bool IGES_ENTITY::GetStructure(IGES_ENTITY** aStructure)
 }
 
 
+// replace a child entity; nothing is changed if the new child cannot be accepted
+bool IGES_ENTITY::replaceChild( IGES_ENTITY* aOldChild, IGES_ENTITY* aNewChild )
+{
+    if( aOldChild == aNewChild )
+        return true;
+
+    if( aNewChild )
+    {
+        bool dup = false;
+
+        if( !aNewChild->addReference( this, dup ) )
+        {
+            ERRMSG << "\n + [BUG] could not add reference to child entity\n";
+            return false;
+        }
+
+        if( dup )
+        {
+            ERRMSG << "\n + [BUG] entity is already in use by the parent\n";
+            return false;
+        }
+
+        if( NULL != parent && parent != aNewChild->parent )
+            parent->AddEntity( aNewChild );
+    }
+
+    if( aOldChild )
+        aOldChild->delReference( this );
+
+    return true;
+}
+
+
 bool IGES_ENTITY::GetLineFontPattern(IGES_LINEFONT_PATTERN& aPattern)
 {
     if( pLineFontPattern )
@@ -1985,12 +2018,6 @@ bool IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY** aPattern)
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 {
-    if( pLineFontPattern )
-    {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
-    }
-
     if( aPattern < LINEFONT_NONE || aPattern >= LINEFONT_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid linefont pattern (";
@@ -1998,6 +2025,12 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+    {
+        pLineFontPattern->delReference(this);
+        pLineFontPattern = NULL;
+    }
+
     lineFontPattern = aPattern;
     return true;
 }
@@ -2005,16 +2038,13 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
 {
-    lineFontPattern = 0;
-
-    if( pLineFontPattern )
+    if( !aPattern )
     {
-        pLineFontPattern->delReference(this);
+        replaceChild( pLineFontPattern, NULL );
         pLineFontPattern = NULL;
-    }
-
-    if( !aPattern )
+        lineFontPattern = 0;
         return true;
+    }
 
     int tEnt = aPattern->GetEntityType();
 
@@ -2027,26 +2057,11 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
         return false;
     }
 
-    bool dup = false;
-
-    if( !aPattern->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
+    if( !replaceChild( pLineFontPattern, aPattern ) )
         return false;
-    }
 
     pLineFontPattern = aPattern;
-
-
-    if( NULL != parent && parent != aPattern->parent )
-        parent->AddEntity( aPattern );
-
+    lineFontPattern = 0;
     return true;
 }
 
@@ -2087,12 +2102,6 @@ bool IGES_ENTITY::GetLevelEntity(IGES_ENTITY** aLevel)
 
 bool IGES_ENTITY::SetLevel( int aLevel )
 {
-    if( pLevel )
-    {
-        pLevel->delReference(this);
-        pLevel = NULL;
-    }
-
     if( aLevel < 0 )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid level (< 0) in entity type #";
@@ -2100,6 +2109,12 @@ bool IGES_ENTITY::SetLevel( int aLevel )
         return false;
     }
 
+    if( pLevel )
+    {
+        pLevel->delReference(this);
+        pLevel = NULL;
+    }
+
     level = aLevel;
     return true;
 }
@@ -2107,16 +2122,13 @@ bool IGES_ENTITY::SetLevel( int aLevel )
 
 bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
 {
-    level = 0;
-
-    if( pLevel )
+    if( !aLevel )
     {
-        pLevel->delReference(this);
+        replaceChild( pLevel, NULL );
         pLevel = NULL;
-    }
-
-    if( !aLevel )
+        level = 0;
         return true;
+    }
 
     int tEnt = aLevel->GetEntityType();
     int tFrm = aLevel->GetEntityForm();
@@ -2130,25 +2142,11 @@ bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
         return false;
     }
 
-    bool dup = false;
-
-    if( !aLevel->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
+    if( !replaceChild( pLevel, aLevel ) )
         return false;
-    }
 
     pLevel = aLevel;
-
-    if( NULL != parent && parent != aLevel->parent )
-        parent->AddEntity( aLevel );
-
+    level = 0;
     return true;
 }
 
@@ -2169,16 +2167,13 @@ bool IGES_ENTITY::GetView(IGES_ENTITY** aView)
 
 bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
 {
-    view = 0;
-
-    if( pView )
+    if( !aView )
     {
-        pView->delReference(this);
+        replaceChild( pView, NULL );
         pView = NULL;
-    }
-
-    if( !aView )
+        view = 0;
         return true;
+    }
 
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
@@ -2192,25 +2187,11 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
         return false;
     }
 
-    bool dup = false;
-
-    if( !aView->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
-        return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
+    if( !replaceChild( pView, aView ) )
         return false;
-    }
 
     pView = aView;
-
-    if( NULL != parent && parent != aView->parent )
-        parent->AddEntity( aView );
-
+    view = 0;
     return true;
 }
 
@@ -2231,16 +2212,13 @@ bool IGES_ENTITY::GetTransform(IGES_ENTITY** aTransform)
 
 bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 {
-    transform = 0;
-
-    if( pTransform )
+    if( !aTransform )
     {
-        pTransform->delReference(this);
+        replaceChild( pTransform, NULL );
         pTransform = NULL;
-    }
-
-    if( !aTransform )
+        transform = 0;
         return true;
+    }
 
     int tEnt = aTransform->GetEntityType();
 
@@ -2253,33 +2231,19 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
         return false;
     }
 
-    pTransform = dynamic_cast<IGES_ENTITY_124*>(aTransform);
+    IGES_ENTITY_124* tp = dynamic_cast<IGES_ENTITY_124*>(aTransform);
 
-    if( !pTransform )
+    if( !tp )
     {
         ERRMSG << "\n + [BUG] could not cast IGES_ENTITY* to IGES_ENTITY_124*\n";
         return false;
     }
 
-    bool dup = false;
-
-    if( !pTransform->addReference(this, dup) )
-    {
-        pTransform = NULL;
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
+    if( !replaceChild( pTransform, tp ) )
         return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        pTransform = NULL;
-        return false;
-    }
-
-    if( NULL != parent && parent != aTransform->parent )
-        parent->AddEntity( aTransform );
 
+    pTransform = tp;
+    transform = 0;
     return true;
 }
 
@@ -2305,16 +2269,13 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 
 bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 {
-    labelAssoc = 0;
-
-    if( pLabelAssoc )
+    if( !aLabelAssoc )
     {
-        pLabelAssoc->delReference(this);
+        replaceChild( pLabelAssoc, NULL );
         pLabelAssoc = NULL;
-    }
-
-    if( !aLabelAssoc )
+        labelAssoc = 0;
         return true;
+    }
 
     int tEnt = aLabelAssoc->GetEntityType();
     int tFrm = aLabelAssoc->GetEntityForm();
@@ -2328,25 +2289,11 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
         return false;
     }
 
-    bool dup = false;
-
-    if( !aLabelAssoc->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
+    if( !replaceChild( pLabelAssoc, aLabelAssoc ) )
         return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        return false;
-    }
 
     pLabelAssoc = aLabelAssoc;
-
-    if( NULL != parent && parent != aLabelAssoc->parent )
-        parent->AddEntity( aLabelAssoc );
-
+    labelAssoc = 0;
     return true;
 }
 
@@ -2391,12 +2338,6 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
 bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 {
-    if( pColor )
-    {
-        pColor->delReference(this);
-        pColor = NULL;
-    }
-
     if( aColor < COLOR_NONE || aColor >= COLOR_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid color (";
@@ -2404,6 +2345,12 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
         return false;
     }
 
+    if( pColor )
+    {
+        pColor->delReference(this);
+        pColor = NULL;
+    }
+
     colorNum = aColor;
 
     return true;
@@ -2412,16 +2359,13 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 
 bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
 {
-    colorNum = 0;
-
-    if( pColor )
+    if( !aColor )
     {
-        pColor->delReference(this);
+        replaceChild( pColor, NULL );
         pColor = NULL;
-    }
-
-    if( !aColor )
+        colorNum = 0;
         return true;
+    }
 
     int tEnt = aColor->GetEntityType();
 
@@ -2434,25 +2378,11 @@ bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
         return false;
     }
 
-    bool dup = false;
-
-    if( !aColor->addReference(this, dup) )
-    {
-        ERRMSG << "\n + [BUG] could not add reference to child entity\n";
+    if( !replaceChild( pColor, aColor ) )
         return false;
-    }
-
-    if( dup )
-    {
-        ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        return false;
-    }
 
     pColor = aColor;
-
-    if( NULL != parent && parent != aColor->parent )
-        parent->AddEntity( aColor );
-
+    colorNum = 0;
     return true;
 }
 
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index a3facba..24875c1 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -161,6 +161,18 @@ protected:
      */
     virtual bool rescale( double sf ) = 0;
 
+
+    /**
+     * Function replaceChild
+     * adds a reference to a new child entity and releases the reference to the
+     * previous one, either of which may be NULL; returns true on success and
+     * changes nothing if the new child cannot be accepted.
+     *
+     * @param aOldChild = the entity which is currently referenced
+     * @param aNewChild = the entity to be referenced
+     */
+    bool replaceChild( IGES_ENTITY* aOldChild, IGES_ENTITY* aNewChild );
+
 public:
     // public functions which must only be used internally by libIGES
 
-- 
2.43.0


From ba3c9f86d00a85ed6f864e110171e34942f18e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 112/198] fix: Edge List, Loop: entities were transferred to
 the model although the edge was rejected

---
 src/entities/entity504.cpp |  6 ------
 src/entities/entity508.cpp | 19 +++++++++++++------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index eb5f699..d0bbc44 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -735,9 +735,6 @@ bool IGES_ENTITY_504::addCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
-    if( NULL != parent && parent != aCurve->GetParentIGES() )
-        parent->AddEntity( aCurve );
-
     return true;
 }
 
@@ -781,9 +778,6 @@ bool IGES_ENTITY_504::addVertexList( IGES_ENTITY_502* aVertexList )
 
     vertices.push_back( pair<IGES_ENTITY_502*, int>(aVertexList, 1) );
 
-    if( NULL != parent && parent != aVertexList->GetParentIGES() )
-        parent->AddEntity( aVertexList );
-
     return true;
 }
 
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 1b00325..362c6e0 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -752,9 +752,6 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 
     redges.push_back(pair<IGES_ENTITY*, int>( aEdge, 1 ) );
 
-    if( NULL != parent && parent != aEdge->GetParentIGES() )
-        parent->AddEntity( (IGES_ENTITY*)aEdge );
-
     return true;
 }
 
@@ -865,9 +862,6 @@ bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
         return false;
     }
 
-    if( NULL != parent && parent != aCurve->GetParentIGES() )
-        parent->AddEntity( aCurve );
-
     return true;
 }
 
@@ -977,5 +971,18 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
     }
 
     edges.push_back( aEdge );
+
+    if( NULL != parent )
+    {
+        if( parent != aEdge->data->GetParentIGES() )
+            parent->AddEntity( aEdge->data );
+
+        for( sP = aEdge->pcurves.begin(); sP != eP; ++sP )
+        {
+            if( parent != (*sP)->curve->GetParentIGES() )
+                parent->AddEntity( (*sP)->curve );
+        }
+    }
+
     return true;
 }
-- 
2.43.0


From f3a4c82f8b76c32a4c9772b4495f799399345480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 113/198] fix: Curve on Parametric Surface: writing a file must
 not change the preferred representation

---
 src/entities/entity142.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity142.cpp b/src/entities/entity142.cpp
index 42df6fb..f180e7f 100644
--- a/src/entities/entity142.cpp
+++ b/src/entities/entity142.cpp
@@ -279,9 +279,11 @@ bool IGES_ENTITY_142::format( int &index )
         return false;
     }
 
+    int pref = PREF;
+
     if( NULL == BPTR )
     {
-        PREF = 2;
+        pref = 2;
         iBPTR = 0;
     }
     else
@@ -291,7 +293,7 @@ bool IGES_ENTITY_142::format( int &index )
 
     if( NULL == CPTR )
     {
-        PREF = 1;
+        pref = 1;
         iCPTR = 0;
     }
     else
@@ -305,9 +307,9 @@ bool IGES_ENTITY_142::format( int &index )
         return false;
     }
 
-    if( PREF < 0 || PREF >  3 )
+    if( pref < 0 || pref >  3 )
     {
-        ERRMSG << "\n + [BUG] invalid curve entity preference (" << PREF << ")\n";
+        ERRMSG << "\n + [BUG] invalid curve entity preference (" << pref << ")\n";
         return false;
     }
 
@@ -336,9 +338,9 @@ bool IGES_ENTITY_142::format( int &index )
     ostr.str("");
 
     if( extras.empty() )
-        ostr << PREF << rd;
+        ostr << pref << rd;
     else
-        ostr << PREF << pd;
+        ostr << pref << pd;
 
     tstr = ostr.str();
     AddPDItem( tstr, lstr, pdout, index, sequenceNumber, pd, rd );
-- 
2.43.0


From 8c7c34b25552bec99bebf7644d194c68811f3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 114/198] fix: Export(): line weights were altered although
 nothing was exported

---
 src/iges/iges.cpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 01ec3a7..7f75818 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2537,27 +2537,6 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
     size_t nEnt = entities.size();
 
-    // determine crude linewidth adjustment; the new linewidths are guaranteed to
-    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
-    // for the new parent IGES and the IGES being merged.
-    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
-    int llw;
-
-    for( size_t i = 0; i < nEnt; ++ i )
-    {
-        llw = entities[i]->lineWeightNum;
-
-        if( llw > 0 )
-        {
-            llw = (int)(double(llw) * lws);
-
-            if( llw == 0 )
-                llw = 1;
-        }
-
-        entities[i]->lineWeightNum = llw;
-    }
-
     // iterate through the list of entities and store lists of
     // + (a) top level Entity 144 (Trimmed Parametric Surfaces)
     // + (b) top level Entity 408 (Singular Subfigure Instance)
@@ -2609,6 +2588,27 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     if( tplist.empty() && sslist.empty() && brlist.empty() )
         return true;
 
+    // determine crude linewidth adjustment; the new linewidths are guaranteed to
+    // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
+    // for the new parent IGES and the IGES being merged.
+    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
+    int llw;
+
+    for( size_t i = 0; i < nEnt; ++ i )
+    {
+        llw = entities[i]->lineWeightNum;
+
+        if( llw > 0 )
+        {
+            llw = (int)(double(llw) * lws);
+
+            if( llw == 0 )
+                llw = 1;
+        }
+
+        entities[i]->lineWeightNum = llw;
+    }
+
     IGES_ENTITY* ep;
     IGES_ENTITY_308* p308;
 
-- 
2.43.0


From 57acbf3f6592c85b9a7e039bed69cd16739240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 115/198] fix: Export(): operands of other entities were listed
 as top level solids

---
 src/iges/iges.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7f75818..727330a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2579,8 +2579,17 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 
             sslist.push_back( entities[i] );
         }
-        else if( tEnt == ENT_MANIFOLD_SOLID_BREP )
+        else if( tEnt == ENT_MANIFOLD_SOLID_BREP && 1 >= nRefs )
         {
+            // as with (b), an operand of another entity is not a top level entity
+            if( nRefs == 1 )
+            {
+                IGES_ENTITY* pref = entities[i]->refs.front();
+
+                if( pref->getNRefs() > 0 || pref->GetEntityType() != ENT_SUBFIGURE_DEFINITION )
+                    continue;
+            }
+
             brlist.push_back( entities[i] );
         }
     }
-- 
2.43.0


From 08353a535fd01e4433df278586cebb3272042506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 116/198] fix: circles: tangency was missed or gave NaN when
 rounding went the wrong way

Circles which touch on the outside were reported as not intersecting if
the computed distance of the centers exceeded the sum of the radii by a
rounding error, and circles which touch on the inside were reported as
having two intersections (which may be NaN).
---
 src/geom/mcad_segment.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..ac65dd3 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -497,9 +497,6 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
     double dy = mcenter.y - c2.y;
     double d= sqrt( dx*dx + dy*dy );
 
-    if( d > ( mradius + r2 ) )
-        return false;
-
     // check if the circles are identical
     // note: lax evaluation of 1e-3 is used since any
     // smaller difference whether in inch or mm is really
@@ -517,17 +514,21 @@ bool MCAD_SEGMENT::checkCircles( const MCAD_SEGMENT& aSegment,
         return false;
     }
 
+    if( d > ( mradius + r2 ) )
+        return false;
+
     if( d < mradius || d < r2)
     {
+        // note: a circle which is tangent to the inside of the other is inside
         // check if aSegment is inside this circle
-        if( d <= (mradius - r2) )
+        if( mradius > r2 && d < (mradius - r2 + 0.001) )
         {
             flags = MCAD_IFLAG_ENCIRCLES;
             return false;
         }
 
         // check if this circle is inside aSegment
-        if( d <= (r2 - mradius) )
+        if( r2 > mradius && d < (r2 - mradius + 0.001) )
         {
             flags = MCAD_IFLAG_INSIDE;
             return false;
-- 
2.43.0


From ee2e9e1d613c89c08966e12d056db05a6d7b1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 117/198] fix: arcs: intersections were tested against the
 wrong center and overlaps misreported

The points where two circles meet were looked up on the second arc by
their angle as seen from the center of the first, so that points on both
arcs were lost and others invented. Arcs and circles which are tangent
or identical were missed when rounding put them just out of reach, inner
tangency and single common endpoints were not reported, arcs of one
circle gave the wrong points for an overlap and none at all for a double
overlap, and an endpoint which lies on the other arc was found or not
depending on rounding.
---
 src/geom/mcad_segment.cpp | 301 +++++++++++++++++---------------------
 1 file changed, 138 insertions(+), 163 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index ac65dd3..c4b5fb3 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -53,6 +53,36 @@ static inline void NORMALIZE_ANGLES( double &a0, double &a1 )
 }
 
 
+// return true if the direction 'ang' as seen from the center of the arc or
+// circle 'aSegment' is within the arc or (to within 1e-8) at one of its ends
+static bool ANGLE_IN_ARC( const MCAD_SEGMENT& aSegment, double ang )
+{
+    if( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
+        return true;
+
+    double a0 = aSegment.GetStartAngle();
+    double a1 = aSegment.GetEndAngle();
+    double tol = 1e-8 / aSegment.GetRadius();
+
+    while( ang > a1 + tol )
+        ang -= 2.0 * M_PI;
+
+    while( ang < a0 - tol )
+        ang += 2.0 * M_PI;
+
+    return ang <= a1 + tol;
+}
+
+
+// return true if the point 'p', which is on the circle of the arc
+// 'aSegment', is also on the arc
+static bool POINT_IN_ARC( const MCAD_SEGMENT& aSegment, const MCAD_POINT& p )
+{
+    MCAD_POINT c = aSegment.GetCenter();
+    return ANGLE_IN_ARC( aSegment, atan2( p.y - c.y, p.x - c.x ) );
+}
+
+
 MCAD_SEGMENT::MCAD_SEGMENT()
 {
     init();
@@ -445,7 +475,13 @@ void MCAD_SEGMENT::calcCircleIntercepts( MCAD_POINT c2, double r2, double d,
     double y = rd / d * dy + mcenter.y;
 
     // height of the triangle
-    double h = sqrt( mradius*mradius - rd*rd );
+    double h = mradius*mradius - rd*rd;
+
+    if( h > 0.0 )
+        h = sqrt( h );
+    else
+        h = 0.0;
+
     double ra0 = atan2( dy, dx ) + M_PI / 2.0;
     double ra1 = ra0 + M_PI;
 
@@ -561,45 +597,6 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     double b0 = aSegment.GetStartAngle();
     double b1 = aSegment.GetEndAngle();
 
-    // XXX -
-    // WARNING: TO BE IMPLEMENTED
-    // XXX - we may have a condition where we have 2 edge overlaps;
-    // this violates our constraint of 0 or 2 point intersections
-    // and we must inform the calling routine of the problem (invalid geometry)
-
-    // check if no intersection possible
-    if( (d > ( mradius + r2 )) || ((d + r2) < mradius) || ((d + mradius) < r2) )
-        return false;
-
-    if( abs( d - mradius - r2 ) < 0.001 )
-    {
-        // calculate the intersection point and check if it lies on both arcs
-        double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
-        double tang1;
-
-        if( tang0 > 0.0 )
-            tang1 = tang0 - M_PI;
-        else
-            tang1 = tang0 + M_PI;
-
-        if( tang0 > a0 )
-            tang0 -= 2.0 * M_PI;
-
-        if( tang0 < a0 )
-            tang0 += 2.0 * M_PI;
-
-        if( tang1 > b0 )
-            tang1 -= 2.0 * M_PI;
-
-        if( tang1 < b0 )
-            tang1 += 2.0 * M_PI;
-
-        if( tang0 >= a0 && tang0 <= a1 && tang1 >= b0 && tang1 <= b1 )
-            flags = MCAD_IFLAG_TANGENT;
-
-        return false;
-    }
-
     // check if the arcs are identical
     if ( PointMatches( mcenter, c2, 1e-3 )
         && abs( mradius - r2 ) < 1e-3 )
@@ -621,66 +618,85 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             return true;
         }
 
-        // Special case: arcs only intersect at their endpoints;
-        // we must return the endpoints with the flag MCAD_IFLAG_ENDPOINT
-        // possible sub-cases:
-        // b1 == a0, b0 == a1 - 2*M_PI
-        // a1 == b0, a0 == b1 - 2*M_PI
-        // b0 == a1, b1 == a0 + 2*M_PI
-        // a0 == b1, a1 == b0 + 2*M_PI
-        if( (abs(b1 - a0) < 1e-8 && abs(b0 -a1 + 2.0*M_PI) < 1e-8)
-            || (abs(a1 - b0) < 1e-8 && abs(a0 -b1 + 2.0*M_PI) < 1e-8)
-            || (abs(b0 - a1) < 1e-8 && abs(b1 -a0 - 2.0*M_PI) < 1e-8)
-            || (abs(a0 - b1) < 1e-8 && abs(a1 -b0 - 2.0*M_PI) < 1e-8) )
-        {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_ENDPOINT;
-            return true;
-        }
+        // angles are measured from the start of *this: *this extends over 0 .. aA
+        // and aSegment over bA .. bB and (bA - 2*M_PI) .. (bB - 2*M_PI); there may
+        // be an edge or a common endpoint in each of these places.
+        double tol = 1e-8 / mradius;
+        double aA = a1 - a0;
+        double bA = b0 - a0;
 
-        // XXX - TO BE IMPLEMENTED
-        // Special case: arcs intersect at only a single endpoint
+        while( bA < 0.0 )
+            bA += 2.0 * M_PI;
 
-        // determine if an entire segment is enveloped
-        if( (b0 >= a0 && b1 <= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b1 + 2.0*M_PI) <= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
-        {
-            aIntersectList.push_back( aSegment.GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
-        }
+        while( bA >= 2.0 * M_PI - tol )
+            bA -= 2.0 * M_PI;
 
-        if( (a0 >= b0 && a1 <= b1)
-            || (a0 >= (b0 + 2.0*M_PI) && a1 <= (b1 + 2.0*M_PI))
-            || (a0 >= (b0 - 2.0*M_PI) && a1 <= (b1 - 2.0*M_PI)) )
+        double bB = bA + b1 - b0;
+        int nEdge = 0;
+        int nEnd = 0;
+        list<MCAD_POINT> edges;
+        list<MCAD_POINT> ends;
+
+        for( int i = 0; i < 2; ++i )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
-            return true;
+            MCAD_POINT p0 = GetStart();
+            MCAD_POINT p1 = GetEnd();
+            double e0 = 0.0;
+            double e1 = aA;
+
+            if( bA > e0 + tol )
+            {
+                e0 = bA;
+                p0 = aSegment.GetStart();
+            }
+
+            if( bB < e1 - tol )
+            {
+                e1 = bB;
+                p1 = aSegment.GetEnd();
+            }
+
+            if( e1 - e0 > tol )
+            {
+                ++nEdge;
+                edges.push_back( p0 );
+                edges.push_back( p1 );
+            }
+            else if( e1 - e0 >= -tol )
+            {
+                ++nEnd;
+                ends.push_front( p1 );
+            }
+
+            bA -= 2.0 * M_PI;
+            bB -= 2.0 * M_PI;
         }
 
-        // case 1: aSegment encompasses the start of *this
-        if( (b0 <= a0 && b1 >= a0 && b1 <= a1)
-            || ((b0 - 2.0*M_PI) <= a0 && (b1 - 2.0*M_PI) >= a0 && (b1 - 2.0*M_PI) <= a1) )
+        if( nEdge > 0 )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
+            aIntersectList.splice( aIntersectList.end(), edges );
+
+            if( nEdge > 1 || nEnd > 0 )
+            {
+                // this violates our constraint of 0 or 2 point intersections
+                // and we must inform the calling routine of the problem
+                // (invalid geometry)
+                aIntersectList.splice( aIntersectList.end(), ends );
+                flags = MCAD_IFLAG_MULTIEDGE;
+            }
+            else
+            {
+                flags = MCAD_IFLAG_EDGE;
+            }
+
             return true;
         }
 
-        // case 2: aSegment encompasses the end of *this
-        if( (b0 >= a0 && b0 <= a1 && b1 >= a1)
-            || ((b0 + 2.0*M_PI) >= a0 && (b0 + 2.0*M_PI) <= a1 && (b1 + 2.0*M_PI) >= a1)
-            || ((b0 - 2.0*M_PI) >= a0 && (b0 - 2.0*M_PI) <= a1 && (b1 - 2.0*M_PI) >= a1) )
+        if( nEnd > 0 )
         {
-            aIntersectList.push_back( GetStart() );
-            aIntersectList.push_back( aSegment.GetEnd() );
-            flags = MCAD_IFLAG_EDGE;
+            // the arcs only intersect at their endpoints
+            aIntersectList.splice( aIntersectList.end(), ends );
+            flags = MCAD_IFLAG_ENDPOINT;
             return true;
         }
 
@@ -737,6 +753,30 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
         }
     }
 
+    // check for tangency; one arc may also be tangent to the inside of the other
+    double dr = abs( mradius - r2 );
+
+    if( abs( d - mradius - r2 ) < 0.001 || abs( d - dr ) < 0.001 )
+    {
+        // check if the point of tangency lies on both arcs
+        double tang0 = atan2( c2.y - mcenter.y, c2.x - mcenter.x );
+        double tang1 = tang0;
+
+        if( abs( d - dr ) >= 0.001 )
+            tang1 += M_PI;
+        else if( r2 > mradius )
+            tang0 = tang1 = tang0 + M_PI;
+
+        if( ANGLE_IN_ARC( *this, tang0 ) && ANGLE_IN_ARC( aSegment, tang1 ) )
+            flags = MCAD_IFLAG_TANGENT;
+
+        return false;
+    }
+
+    // check if no intersection possible
+    if( d > ( mradius + r2 ) || d < dr )
+        return false;
+
     // the arcs are not concentric so if there is any intersection
     // it is at 1 or 2 points
     MCAD_POINT p1;
@@ -751,81 +791,16 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     MCAD_POINT p0[2];
     double ang0[2];
     int np = 0;
-    int isOnArc[2];
-    double tang;
-
-    isOnArc[0] = 0;
-    isOnArc[1] = 0;
-
-    if ( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
+    bool isOnArc[2];
 
-        if( tang > b1 )
-            tang -= 2.0 * M_PI;
+    isOnArc[0] = false;
+    isOnArc[1] = false;
 
-        if( tang < b0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= b1 )
-        {
-            ++isOnArc[1];
-        }
-    }
+    if( POINT_IN_ARC( aSegment, p1 ) && POINT_IN_ARC( *this, p1 ) )
+        isOnArc[0] = true;
 
-    if( MCAD_SEGTYPE_CIRCLE == msegtype )
-    {
-        ++isOnArc[0];
-        ++isOnArc[1];
-    }
-    else
-    {
-        // check if each point lies on the arc
-        tang = angX0;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[0];
-        }
-
-        tang = angX1;
-
-        if( tang > a1 )
-            tang -= 2.0 * M_PI;
-
-        if( tang < a0 )
-            tang += 2.0 * M_PI;
-
-        if( tang <= a1 )
-        {
-            ++isOnArc[1];
-        }
-    }
+    if( POINT_IN_ARC( aSegment, p2 ) && POINT_IN_ARC( *this, p2 ) )
+        isOnArc[1] = true;
 
     if( angX0 < a0 )
         angX0 += 2.0 * M_PI;
@@ -833,14 +808,14 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     if( angX1 < a0 )
         angX1 += 2.0 * M_PI;
 
-    if( 2 == isOnArc[0] )
+    if( isOnArc[0] )
     {
         p0[0] = p1;
         ang0[0] = angX0;
         ++np;
     }
 
-    if( 2 == isOnArc[1] )
+    if( isOnArc[1] )
     {
         p0[np] = p2;
         ang0[np] = angX1;
-- 
2.43.0


From 0bd2fc6efd55d0f8e17a0b735e0c5c0a344d4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 118/198] fix: line and arc intersections: endpoints and
 tangents were lost to rounding

An endpoint of the line which lies on the arc was only found if rounding
did not put it beyond the end, a tangent line was dropped for an arc if
the discriminant came out negative, the endpoints of the line were
mistaken for those of the arc when the line was the object operated on,
and the flag reported was that of a point which is not on the arc.
---
 src/geom/mcad_segment.cpp | 245 +++++++++-----------------------------
 1 file changed, 55 insertions(+), 190 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index c4b5fb3..c724b75 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -870,8 +870,8 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
     MCAD_POINT arcE;
     double arcR;
     double arcSAng;
-    double arcEAng;
     bool arcCircle = false;
+    const MCAD_SEGMENT* arc;
 
     MCAD_POINT lS;
     MCAD_POINT lE;
@@ -881,8 +881,8 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         if( MCAD_SEGTYPE_CIRCLE == msegtype )
             arcCircle = true;
 
+        arc = this;
         arcSAng = GetStartAngle();
-        arcEAng = GetEndAngle();
         arcR = mradius;
         arcC = mcenter;
         arcS = mstart;
@@ -896,8 +896,8 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
         if( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
             arcCircle = true;
 
+        arc = &aSegment;
         arcSAng = aSegment.GetStartAngle();
-        arcEAng = aSegment.GetEndAngle();
         arcR = aSegment.GetRadius();
         arcC = aSegment.GetCenter();
         arcS = aSegment.GetStart();
@@ -910,219 +910,84 @@ bool MCAD_SEGMENT::checkArcLine( const MCAD_SEGMENT& aSegment,
     // Step 1: the line segment must be parameterized:
     // x = t*x1 + (1-t)*x2
     // y = t*y1 + (1-t)*y2
-    // Step 2: given a circle with center (x0, y0), solve for:
-    // (x0 - x)^2 + (y0 - y)^2 = R^2
-    // Intermediates:
-    //      + expanding (x0 - x)^2 we get:
-    //          t^2*(x1^2 -2x1*x2 +x2^2) +t*2*(x0*x2 -x0*x1 +x1*x2 -x2^2) + (x0^2 -2*x0*x2 +x2^2)
-    //        (y0 - y)^2 expands to the same general expression
-    //      + gathering known values into single coefficients we get:
-    //          a0 = (x1^2 -2x1*x2 +x2^2)
-    //          b0 = 2*(x0*x2 -x0*x1 +x1*x2 -x2^2)
-    //          c0 = (x0^2 -2*x0*x2 +x2^2)
-    //          a1 = (y1^2 -2y1*y2 +y2^2)
-    //          b1 = 2*(y0*y2 -y0*y1 +y1*y2 -y2^2)
-    //          c1 = (y0^2 -2*y0*y2 +y2^2)
-    //      + Step 2 reduces to:
-    //          (a0 + a1)*t^2 + (b0 + b1)*t + (c0 + c1 - R^2) = 0
-    //        Which is equal to:
-    //          A*t^2 + B*t +C = 0
-    // Step 3: solution for t:
-    //      t = (-B * sqrt( B^2 -4*A*C )) / (2*A)
-    // First check the discriminant; if it is == 0 we have a tangent, if <0
-    // we have no intersection, and if >0 we may have an intersection.
-    // If the discriminant > 0, solve for t and for any value 0<= t <= 1
-    // check if p(t) lies on the arc/circle
-
-    double a0 = ( lS.x * lS.x - 2.0 * lS.x * lE.x + lE.x * lE.x );
-    double b0 = 2.0 * ( arcC.x * lE.x - arcC.x * lS.x + lS.x * lE.x - lE.x * lE.x );
-    double c0 = arcC.x * arcC.x - 2.0 * arcC.x * lE.x + lE.x * lE.x;
-
-    double a1 = ( lS.y * lS.y - 2.0 * lS.y * lE.y + lE.y * lE.y );
-    double b1 = 2.0 * ( arcC.y * lE.y - arcC.y * lS.y + lS.y * lE.y - lE.y * lE.y );
-    double c1 = arcC.y * arcC.y - 2.0 * arcC.y * lE.y + lE.y * lE.y;
-
-    double A = a0 + a1;
-    double B = b0 + b1;
-    double C = c0 + c1 - arcR * arcR;
-
-    double D = B * B - 4.0 * A * C;
-
-    bool tangent = false;
-
-    if( abs( D ) < 1e-6 )
-    {
-        if( arcCircle )
-        {
-            double t = -B / ( 2.0 * A );
-
-            if( t < 0.0 || t > 1.0 )
-                return false;
-
-            flags = MCAD_IFLAG_TANGENT;
-            MCAD_POINT p;
-            p.x = t * lS.x + (1.0 - t) * lE.x;
-            p.y = t * lS.y + (1.0 - t) * lE.y;
-            aIntersectList.push_back( p );
-            return true;
-        }
-
-        tangent = true;
-    }
-
-    if( D < 0 )
-        return false;
-
-    double t0;
-    double t1;
-
-    if( tangent )
-    {
-        t0 = -B / ( 2.0 * A );
-        t1 = t0;
+    // Step 2: determine the parameter tm of the point on the line which is
+    // closest to the center of the arc and the distance h from the center.
+    // Step 3: if h == R we have a tangent, if h > R we have no intersection
+    // and otherwise the intersections are at a distance sqrt( R^2 - h^2 )
+    // to either side of tm.
+    // For any value 0 <= t <= 1 check if p(t) lies on the arc/circle
+
+    double dx = lS.x - lE.x;
+    double dy = lS.y - lE.y;
+    double len = sqrt( dx * dx + dy * dy );
+    double tm = ( ( arcC.x - lE.x ) * dx + ( arcC.y - lE.y ) * dy ) / ( len * len );
+    double h = abs( dx * ( arcC.y - lE.y ) - dy * ( arcC.x - lE.x ) ) / len;
+    double t[2];
+    int nt = 2;
+
+    if( abs( h - arcR ) < 1e-6 )
+    {
+        t[0] = tm;
+        nt = 1;
     }
     else
     {
-        t0 = ( -B + sqrt( D ) ) / ( 2.0 * A );
-        t1 = ( -B - sqrt( D ) ) / ( 2.0 * A );
-    }
-
-    int np = 0;
-    MCAD_POINT p[2];
-    MCAD_INTERSECT_FLAG f[2];
-
-    if( t0 >= 0.0 && t0 <= 1.0 )
-    {
-        p[0].x = t0 * lS.x + (1.0 - t0) * lE.x;
-        p[0].y = t0 * lS.y + (1.0 - t0) * lE.y;
-
-        if( ( ( PointMatches( p[0], arcS, 1e-8 ) || PointMatches( p[0], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t0 ) < 1e-8 || abs( t0 - 1.0 ) < 1e-8 )
-            f[0] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[0] = MCAD_IFLAG_NONE;
-
-        ++np;
-    }
-
-    if( !tangent && t1 >= 0.0 && t1 <= 1.0 )
-    {
-        p[np].x = t1 * lS.x + (1.0 - t1) * lE.x;
-        p[np].y = t1 * lS.y + (1.0 - t1) * lE.y;
-
-        if( ( ( PointMatches( p[np], arcS, 1e-8 ) || PointMatches( p[np], arcE, 1e-8 ) )
-            && !arcCircle )
-            || abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            f[np] = MCAD_IFLAG_ENDPOINT;
-        else
-            f[np] = MCAD_IFLAG_NONE;
+        if( h > arcR )
+            return false;
 
-        ++np;
+        double dt = sqrt( arcR * arcR - h * h ) / len;
+        t[0] = tm + dt;
+        t[1] = tm - dt;
     }
 
-    if( 0 == np )
-        return false;
-
+    double tol = 1e-8 / len;    // tolerance for the endpoints of the line
     double ang[2];
+    MCAD_POINT p[2];
+    int np = 0;
 
-    for( int i = 0; i < np; ++i )
-        ang[i] = atan2( p[i].y - arcC.y, p[i].x - arcC.x );
-
-    if( arcCircle )
+    for( int i = 0; i < nt; ++i )
     {
-        if( 1 == np )
-        {
-            aIntersectList.push_back( p[0] );
-            flags = f[0];
-            return true;
-        }
+        if( t[i] < -tol || t[i] > 1.0 + tol )
+            continue;
 
-        if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
-            flags = MCAD_IFLAG_ENDPOINT;
+        p[np].x = t[i] * lS.x + ( 1.0 - t[i] ) * lE.x;
+        p[np].y = t[i] * lS.y + ( 1.0 - t[i] ) * lE.y;
 
-        bool swap = false; // set to true if p[0], p[1] must be swapped
+        if( !POINT_IN_ARC( *arc, p[np] ) )
+            continue;
 
-        if( ang[0] >= 0.0 )
-        {
-            if( ang[1] >= 0.0 && ang[1] < ang[0] )
-                    swap = true;
-        }
-        else
-        {
-            if( ang[1] >= 0.0 || ang[1] < ang[0] )
-                swap = true;
-        }
-
-        if( swap )
-        {
-            aIntersectList.push_back( p[1] );
-            aIntersectList.push_back( p[0] );
-        }
-        else
-        {
-            aIntersectList.push_back( p[0] );
-            aIntersectList.push_back( p[1] );
-        }
+        if( abs( t[i] ) < tol || abs( t[i] - 1.0 ) < tol
+            || ( !arcCircle && ( PointMatches( p[np], arcS, 1e-8 )
+            || PointMatches( p[np], arcE, 1e-8 ) ) ) )
+            flags = MCAD_IFLAG_ENDPOINT;
 
-        return true;
-    }
+        // the angle from the start of the arc (or from 0 on a circle)
+        ang[np] = atan2( p[np].y - arcC.y, p[np].x - arcC.x );
 
-    MCAD_POINT pt[2];
-    int np2 = 0;
+        while( ang[np] < arcSAng - 1e-8 / arcR )
+            ang[np] += 2.0 * M_PI;
 
-    // check if each point is on the arc
-    for( int i = 0; i < np; ++i )
-    {
-        // note: the endpoints are checked as well to account for discrepancies
-        // in the angle calculations which may result in false negatives.
-        if( ( ang[i] >= arcSAng && ang[i] <= arcEAng )
-            || ( ( ang[i] + 2.0 * M_PI ) >= arcSAng && ( ang[i] + 2.0 * M_PI ) <= arcEAng )
-            || ( abs( p[i].x - mstart.x ) < 1e-14 && abs( p[i].y - mstart.y ) < 1e-14 )
-            || ( abs( p[i].x - mend.x ) < 1e-14 && abs( p[i].y - mend.y ) < 1e-14 ) )
-        {
-            pt[np2] = p[i];
-            ++np2;
-        }
+        ++np;
     }
 
-    if( 0 == np2 )
+    if( 0 == np )
         return false;
 
-    if( tangent )
-    {
+    if( 1 == nt )
         flags = MCAD_IFLAG_TANGENT;
-        aIntersectList.push_back( pt[0] );
-        return true;
-    }
 
-    if( 1 == np2 )
+    // determine point order on the arc
+    if( 2 == np && ang[1] < ang[0] )
     {
-        flags = f[0];
-        aIntersectList.push_back( pt[0] );
+        aIntersectList.push_back( p[1] );
+        aIntersectList.push_back( p[0] );
         return true;
     }
 
-    if( MCAD_IFLAG_ENDPOINT == f[0] || MCAD_IFLAG_ENDPOINT == f[1] )
-        flags = MCAD_IFLAG_ENDPOINT;
-
-    // determine point order on the arc
-    if( ang[0] < arcSAng )
-        ang[0] += 2.0 * M_PI;
+    aIntersectList.push_back( p[0] );
 
-    if( ang[1] < arcSAng )
-        ang[1] += 2.0 * M_PI;
-
-    if( ang[1] > ang[0] )
-    {
-        aIntersectList.push_back( pt[0] );
-        aIntersectList.push_back( pt[1] );
-    }
-    else
-    {
-        aIntersectList.push_back( pt[1] );
-        aIntersectList.push_back( pt[0] );
-    }
+    if( 2 == np )
+        aIntersectList.push_back( p[1] );
 
     return true;
 }
-- 
2.43.0


From 84740c13477b5baafa0b4af503a10df497fd2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 119/198] fix: collinear lines: overlaps were only found at
 common endpoints

A line which overlaps another in part, or is contained in it, was reported
as having nothing in common with it; lines which only touch at an endpoint
were reported as an edge with two identical points.
---
 src/geom/mcad_segment.cpp | 101 +++++++-------------------------------
 1 file changed, 18 insertions(+), 83 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index c724b75..6f55a4d 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1059,33 +1059,7 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
         // if there is an overlap the points must be in order 0 <= t1 < t2 <= 1
         // as parameterized on *this segment.
 
-        // cases:
-        // 1. (S0, E0) not in (S1, E1) *and* (S1, E1) not in (S0, E0): no overlap
-        // 2. [S0 and E0 in (S1, E1)] *or* [S1 and E1 in (S0, E0)]: one segment inside the other or equal
-        // 3. S0 or E0 in (S1, E1) *and* S1 or E1 in (S0, E1): partial overlap
-
-        bool s0i = false;
-        bool e0i = false;
-        bool s1i = false;
-        bool e1i = false;
-
-        if( abs( XA2 ) >= abs( YA2 ) )
-        {
-            t1 = ( mstart.x - XB2 ) / XA2;
-            t2 = ( mend.x - XB2 ) / XA2;
-        }
-        else
-        {
-            t1 = ( mstart.y - YB2 ) / YA2;
-            t2 = ( mend.y - YB2 ) / YA2;
-        }
-
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s0i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e0i = true;
-
+        // the position of the endpoints of aSegment on *this
         if( abs( XA1 ) >= abs( YA1 ) )
         {
             t1 = ( p0.x - XB1 ) / XA1;
@@ -1097,77 +1071,38 @@ bool MCAD_SEGMENT::checkLines( const MCAD_SEGMENT& aSegment,
             t2 = ( p1.y - YB1 ) / YA1;
         }
 
-        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8 )
-            s1i = true;
-
-        if( abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
-            e1i = true;
-
-        if( !s0i && !e0i && !s1i && !e1i )
-            return false;
-
-        flags = MCAD_IFLAG_EDGE;
-
-        if( s0i && e0i )
+        if( t1 > t2 )
         {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( mend );
-            return true;
+            swap( t1, t2 );
+            swap( p0, p1 );
         }
 
-        if( s1i && e1i )
+        if( t1 < 1e-8 )
         {
-            if( abs( XA1 ) >= abs( YA1 ) )
-            {
-                t1 = ( p0.x - XB1 ) / XA1;
-                t2 = ( p1.x - XB1 ) / XA1;
-            }
-            else
-            {
-                t1 = ( p0.y - YB1 ) / YA1;
-                t2 = ( p1.y - YB1 ) / YA1;
-            }
-
-            if( t1 < t2 )
-            {
-                aIntersectList.push_back( p0 );
-                aIntersectList.push_back( p1 );
-            }
-            else
-            {
-                aIntersectList.push_back( p1 );
-                aIntersectList.push_back( p0 );
-            }
-
-            return true;
+            t1 = 0.0;
+            p0 = mstart;
         }
 
-        if( s0i && s1i )
+        if( t2 > 1.0 - 1e-8 )
         {
-            aIntersectList.push_back( mstart );
-            aIntersectList.push_back( p0 );
-            return true;
+            t2 = 1.0;
+            p1 = mend;
         }
 
-        if( s0i && e1i )
+        if( t2 - t1 > 1e-8 )
         {
-            aIntersectList.push_back( mstart );
+            aIntersectList.push_back( p0 );
             aIntersectList.push_back( p1 );
+            flags = MCAD_IFLAG_EDGE;
             return true;
         }
 
-        // must be e0i
-
-        if( s1i )
-        {
-            aIntersectList.push_back( p0 );
-            aIntersectList.push_back( mend );
-            return true;
-        }
+        if( t2 - t1 < -1e-8 )
+            return false;
 
-        // must be e0i && e1i
-        aIntersectList.push_back( p1 );
-        aIntersectList.push_back( mend );
+        // the lines only have an endpoint in common
+        aIntersectList.push_back( t1 < 0.5 ? p0 : p1 );
+        flags = MCAD_IFLAG_ENDPOINT;
         return true;
     }
 
-- 
2.43.0


From a27627c188051157847c52e8d54b4c492972d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 120/198] fix: Split(): a point given twice made a degenerate
 segment

---
 src/geom/mcad_segment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index 6f55a4d..187a339 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -423,6 +423,11 @@ bool MCAD_SEGMENT::Split( std::list<MCAD_POINT>& aIntersectList,
 
         if( aIntersectList.empty() )
             return false;
+
+        // a point which was given twice splits the segment only once
+        if( aIntersectList.size() == 2
+            && PointMatches( aIntersectList.front(), aIntersectList.back(), 1e-8 ) )
+            aIntersectList.pop_back();
     }
 
     bool ok = false;
-- 
2.43.0


From 80a856a711aec1e28ec8e52c55823c8b0be8464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 121/198] fix: IsInside(): points level with a corner or the
 end of an arc were misjudged

The count of the crossings of a horizontal line was wrong if the line
touched a corner or an arc, or passed along a segment; points which are on
the outline were not reliably reported. Sum up the angles instead.
---
 src/geom/mcad_outline.cpp | 210 ++++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 110 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..accd69b 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -110,6 +110,98 @@ void MCAD_OUTLINE::PrintGeomIntersects( const list<MCAD_INTERSECT>& aList )
 }
 
 
+// return true if the point is within 1e-8 of the segment
+static bool POINT_ON_SEGMENT( const MCAD_SEGMENT& aSegment, const MCAD_POINT& aPoint )
+{
+    MCAD_POINT p0 = aSegment.GetMStart();
+    MCAD_POINT p1 = aSegment.GetMEnd();
+
+    if( MCAD_SEGTYPE_CIRCLE != aSegment.GetSegType()
+        && ( PointMatches( aPoint, p0, 1e-8 ) || PointMatches( aPoint, p1, 1e-8 ) ) )
+        return true;
+
+    if( MCAD_SEGTYPE_LINE == aSegment.GetSegType() )
+    {
+        double dx = p1.x - p0.x;
+        double dy = p1.y - p0.y;
+        double len = sqrt( dx * dx + dy * dy );
+        double pos = ( ( aPoint.x - p0.x ) * dx + ( aPoint.y - p0.y ) * dy ) / len;
+        double off = ( ( aPoint.y - p0.y ) * dx - ( aPoint.x - p0.x ) * dy ) / len;
+
+        return pos >= 0.0 && pos <= len && abs( off ) < 1e-8;
+    }
+
+    MCAD_POINT c = aSegment.GetCenter();
+    double dx = aPoint.x - c.x;
+    double dy = aPoint.y - c.y;
+
+    if( abs( sqrt( dx * dx + dy * dy ) - aSegment.GetRadius() ) >= 1e-8 )
+        return false;
+
+    if( MCAD_SEGTYPE_CIRCLE == aSegment.GetSegType() )
+        return true;
+
+    double ang = atan2( dy, dx );
+
+    while( ang < aSegment.GetStartAngle() )
+        ang += 2.0 * M_PI;
+
+    while( ang > aSegment.GetEndAngle() )
+        ang -= 2.0 * M_PI;
+
+    return ang >= aSegment.GetStartAngle();
+}
+
+
+// return the angle by which the direction from aPoint to a point which
+// travels along the segment turns; aPoint must not be on the segment
+static double TURN_ANGLE( const MCAD_SEGMENT& aSegment, const MCAD_POINT& aPoint )
+{
+    MCAD_POINT p0 = aSegment.GetMStart();
+    double x0 = p0.x - aPoint.x;
+    double y0 = p0.y - aPoint.y;
+
+    if( MCAD_SEGTYPE_LINE == aSegment.GetSegType() )
+    {
+        MCAD_POINT p1 = aSegment.GetMEnd();
+        double x1 = p1.x - aPoint.x;
+        double y1 = p1.y - aPoint.y;
+
+        return atan2( x0 * y1 - x1 * y0, x0 * x1 + y0 * y1 );
+    }
+
+    // treat an arc as a chain of chords; a point inside the circle always sees
+    // the arc turn in the direction in which it is drawn, also if the point is
+    // between a chord and its arc
+    MCAD_POINT c = aSegment.GetCenter();
+    double rad = aSegment.GetRadius();
+    double a0 = aSegment.GetMSAngle();
+    double da = ( aSegment.GetMEAngle() - a0 ) / 4.0;
+    double dx = aPoint.x - c.x;
+    double dy = aPoint.y - c.y;
+    bool inCircle = dx * dx + dy * dy < rad * rad;
+    double turn = 0.0;
+
+    for( int i = 1; i <= 4; ++i )
+    {
+        double x1 = c.x + rad * cos( a0 + i * da ) - aPoint.x;
+        double y1 = c.y + rad * sin( a0 + i * da ) - aPoint.y;
+        double ang = atan2( x0 * y1 - x1 * y0, x0 * x1 + y0 * y1 );
+
+        if( inCircle && da > 0.0 && ang < 0.0 )
+            ang += 2.0 * M_PI;
+        else if( inCircle && da < 0.0 && ang > 0.0 )
+            ang -= 2.0 * M_PI;
+
+        turn += ang;
+        x0 = x1;
+        y0 = y1;
+    }
+
+    return turn;
+}
+
+
 MCAD_OUTLINE::MCAD_OUTLINE()
 {
     mIsClosed = false;
@@ -292,126 +384,24 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     }
 
     // Steps:
-    // 1. take a line passing through this point and directly to the
-    //    left or right, whichever is the shortest segment.
-    // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
-    // 3. odd nodes = inside, even nodes = outside
-
-    MCAD_POINT bb0 = mBottomLeft;
-    MCAD_POINT bb1 = mTopRight;
-
-    // expand the limits to ensure non-zero segment lengths in all cases
-    bb0.x -= 5.0;
-    bb0.y -= 5.0;
-    bb1.x += 5.0;
-    bb1.y += 5.0;
-
-    MCAD_POINT p2;
-
-    if( (aPoint.x - mBottomLeft.x) <= (mTopRight.x - aPoint.x) )
-        p2.x = bb0.x;
-    else
-        p2.x = bb1.x;
-
-    p2.y = aPoint.y;
-
-    MCAD_SEGMENT ls0;
-    ls0.SetParams( aPoint, p2 );
-    int nI = 0; // number of intersections with the outline
+    // 1. a point which is on a segment is on the outline
+    // 2. otherwise sum up the angles which the segments subtend at the point:
+    //    the sum is 0 if the point is outside and +/-2*M_PI if it is inside
 
+    double turn = 0.0;
     list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
     list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
-    list<MCAD_POINT> iList;
-    MCAD_INTERSECT_FLAG flag;
-
-    int acc = 0;
 
     while( sSegs != eSegs )
     {
-        if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
-        {
-            list<MCAD_POINT>::iterator sL = iList.begin();
-            list<MCAD_POINT>::iterator eL = iList.end();
-
-            while( sL != eL )
-            {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
-                {
-                    ++nI;
-                }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
-
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
-
-                    }
-                    else
-                    {
-                        ++nI;
-                    }
-                }
-
-                ++sL;
-            }
-
-            iList.clear();
-        }
+        if( POINT_ON_SEGMENT( **sSegs, aPoint ) )
+            return true;
 
+        turn += TURN_ANGLE( **sSegs, aPoint );
         ++sSegs;
     }
 
-    // note: an odd number means the point is inside the outline
-    if( nI % 2 )
-        return true;
-
-    return false;
+    return abs( turn ) > M_PI;
 }
 
 
-- 
2.43.0


From 720aa878888a19e059c5d98e5fccf1bfc162e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 122/198] fix: AddSegment(): the direction of an outline with
 large arcs was misjudged

The winding was calculated with 2 chords in place of each arc; outlines
where this changes the sign of the area were kept in CW order.
---
 src/geom/mcad_outline.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index accd69b..77efb21 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -508,20 +508,14 @@ bool MCAD_OUTLINE::AddSegment( MCAD_SEGMENT* aSegment, bool& error )
     p0 = pseg->mend;
     p1 = pseg->mstart;
 
+    mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+
     if( MCAD_SEGTYPE_ARC == pseg->GetSegType() )
     {
         // To ensure correct winding calculations involving
-        // arcs we must take the midpoint of the arc and
-        // calculate the winding based on 2 segments.
-        MCAD_POINT p2;
-        pseg->GetMidpoint( p2 );
-
-        mWinding += ( p0.x - p2.x ) * ( p0.y + p2.y );
-        mWinding += ( p2.x - p1.x ) * ( p2.y + p1.y );
-    }
-    else
-    {
-        mWinding += ( p0.x - p1.x ) * ( p0.y + p1.y );
+        // arcs we must add the area between the arc and its chord
+        double ang = pseg->GetMEAngle() - pseg->GetMSAngle();
+        mWinding -= pseg->GetRadius() * pseg->GetRadius() * ( ang - sin( ang ) );
     }
 
     if( msegments.size() > 1 )
-- 
2.43.0


From efc825867a4f5cd3ab0130d2707c4d9051216432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 123/198] fix: coincident outlines were reported as not
 intersecting

The error flag was not set if the regions touch in 2 points but do not
overlap, so that AddCutout() accepted such a cutout.
---
 src/geom/mcad_outline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 77efb21..b409a34 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -856,6 +856,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
             msg << "the outline";
             ERRMSG << msg.str() << "\n";
             errors.push_back( msg.str() );
+            error = true;
             return false;
         }
 
@@ -1630,6 +1631,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         msg << "[ERROR] invalid geometry (non-overlapping regions coincident at 2 points)";
         ERRMSG << msg.str() << "\n";
         errors.push_back( msg.str() );
+        error = true;
         return false;
     }
 
-- 
2.43.0


From 777d01c138611f7e1e5fe06e353f05b50ab3dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 124/198] fix: AddOutline(): infinite loop if the outline has a
 CW arc

GetStart() and GetEnd() are in CCW order on an arc; the loop which looks
for the segment to start with never ended and the order was wrong.
---
 src/geom/mcad_outline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b409a34..9627938 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1862,13 +1862,14 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            // note: GetStart(), GetEnd() are in CCW order on an arc
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From dc71d49a3296c31e25b9fd1e12f22f34746d8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 125/198] fix: SubOutline(): the segments of the cutout were
 inserted in the wrong order

If the retained part of the cutout starts at the first intersection and
consists of more than one segment then the last segment was inserted
after the others, which leaves an outline which is not contiguous.
---
 src/geom/mcad_outline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 9627938..fc75e24 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1799,7 +1799,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         }
 
         aOutline->msegments = tSegs;
-        oSegs.front() = --aOutline->msegments.end();
+        oSegs.front() = aOutline->msegments.begin();
         eSegO = --aOutline->msegments.end();
     }
 
-- 
2.43.0


From 52dc92b9b39c262263ba5873ecf3e19d471bbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 126/198] fix: outlines which cross at an end point and
 elsewhere on the same segment could not be merged

The segment was split at the second point and the first point was then no
longer recognised as an end point of the segment.
---
 src/geom/mcad_outline.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index fc75e24..a752914 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1063,19 +1063,23 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
         }
     }
 
-    // either pSeg[0] or pSeg[0]-- must have an endpoint 'mend' which
+    // one of the segments must have an endpoint 'mend' which
     // is equal to pf[0]; find that iterator then eradicate all
     // subsequent entries (wrapping to begin() if necessary) until
     // we encounter a segment whose 'mstart' equals pf[1]. Finally,
     // insert 'sp' after the aforementioned iterator or, more
     // conveniently, before the first segment not eradicated.
 
-    if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
+    size_t nSegs = msegments.size();
+
+    while( nSegs > 0 && !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
     {
         if( msegments.front() == *pSeg[0] )
             pSeg[0] = --msegments.end();
         else
             --pSeg[0];
+
+        --nSegs;
     }
 
     if( !PointMatches( (*pSeg[0])->mend, pF[0], 1e-8 ) )
@@ -1396,8 +1400,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the end points of the segment may have been changed by
+            // the split at the first point
+            if( !( iPts == iList.begin() ? p1e : p2e ) )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
@@ -1474,8 +1479,9 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         {
             MCAD_SEGMENT* pSeg = **sSegs;
 
-            if( !PointMatches( *iPts, pSeg->mstart, 1e-8 )
-                && !PointMatches( *iPts, pSeg->mend, 1e-8 ) )
+            // note: the end points of the segment may have been changed by
+            // the split at the first point
+            if( !( iPts == iList.begin() ? p1e : p2e ) )
             {
                 // this is not an endpoint; split the entity
                 list<MCAD_SEGMENT*> sList;
-- 
2.43.0


From e5bcdabab548967a20973bf8a3f5be37e8fca5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 127/198] fix: circle operations: the wrong part of the outline
 was retained

If the circle crosses a single arc of the outline twice and contains the
remainder of the outline then the part of the arc which is between the
intersections must be retained, not the remainder of the outline.
---
 src/geom/mcad_outline.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index a752914..fe9bd30 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1000,12 +1000,31 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
                 return false;
             }
 
-            // replace the first new segment with the arc
-            delete sList.front();
-            sList.pop_front();
-            sList.push_front( sp );
-            list<MCAD_SEGMENT*>::iterator pS0 = pSeg[0];
-            msegments.insert( ++pS0, sList.begin(), sList.end() );
+            if( PointMatches( sList.front()->mstart, pF[0], 1e-8 ) )
+            {
+                // replace the first new segment with the arc
+                delete sList.front();
+                sList.pop_front();
+                sList.push_front( sp );
+                list<MCAD_SEGMENT*>::iterator pS0 = pSeg[0];
+                msegments.insert( ++pS0, sList.begin(), sList.end() );
+            }
+            else
+            {
+                // the outline only retains the part of the segment
+                // which is between the 2 points
+                delete sList.back();
+                sList.pop_back();
+
+                while( !msegments.empty() )
+                {
+                    delete msegments.back();
+                    msegments.pop_back();
+                }
+
+                msegments.push_back( sList.front() );
+                msegments.push_back( sp );
+            }
 
             return true;
         }
-- 
2.43.0


From 275b45b5c62889cf9f779ab799128a96d560b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 128/198] fix: faces of arcs whose start angle exceeds pi or
 which end within rounding error of the x axis

---
 src/geom/geom_cylinder.cpp | 40 ++++++++++++++++++++++++-----
 src/geom/iges_geom_pcb.cpp | 52 ++++++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..4b4fc10 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -70,6 +70,36 @@ static bool makeNurb( double* p0, double* p1, SISLCurve** pCurve )
 }
 
 
+// the start and end angle of a counterclockwise arc: -M_PI <= aStart <= M_PI and
+// aStart < aEnd <= aStart + 2*M_PI. An angle which is within rounding error of a
+// multiple of M_PI takes that value since the arc must not be split into a piece
+// which has no length.
+static void getArcAngles( const MCAD_POINT& aCenter, const MCAD_POINT& aStartPt,
+    const MCAD_POINT& aEndPt, double& aStart, double& aEnd )
+{
+    double dx = aStartPt.x - aCenter.x;
+    double dy = aStartPt.y - aCenter.y;
+    double lim = 1e-7 / sqrt( dx*dx + dy*dy );
+
+    aStart = atan2( dy, dx );
+    aEnd = atan2( aEndPt.y - aCenter.y, aEndPt.x - aCenter.x );
+
+    if( aEnd < aStart )
+        aEnd += 2.0 * M_PI;
+
+    double k0 = floor( aStart / M_PI + 0.5 );
+    double k1 = floor( aEnd / M_PI + 0.5 );
+
+    if( abs( aStart - k0 * M_PI ) < lim )
+        aStart = k0 * M_PI;
+
+    if( abs( aEnd - k1 * M_PI ) < lim )
+        aEnd = k1 * M_PI;
+
+    return;
+}
+
+
 IGES_GEOM_CYLINDER::IGES_GEOM_CYLINDER()
 {
     init();
@@ -165,12 +195,10 @@ bool IGES_GEOM_CYLINDER::SetParams( MCAD_POINT center, MCAD_POINT start, MCAD_PO
         return true;
     }
 
-    double ang1 = atan2( start.y - center.y, start.x - center.x );
-    double ang2 = atan2( end.y - center.y, end.x - center.x );
-
-    // ensure that the final angle is always > start angle
-    if( ang2 < ang1 )
-        ang2 += 2.0 * M_PI;
+    // note: the final angle is always > start angle
+    double ang1;
+    double ang2;
+    getArcAngles( center, start, end, ang1, ang2 );
 
     if( ang1 < 0.0 )
     {
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..6412776 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -150,6 +150,36 @@ static bool newArc126( IGES* aModel, IGES_ENTITY_126** ap )
 }
 
 
+// the start and end angle of a counterclockwise arc: -M_PI <= aStart <= M_PI and
+// aStart < aEnd <= aStart + 2*M_PI. An angle which is within rounding error of a
+// multiple of M_PI takes that value since the arc must not be split into a piece
+// which has no length.
+static void getArcAngles( const MCAD_POINT& aCenter, const MCAD_POINT& aStartPt,
+    const MCAD_POINT& aEndPt, double& aStart, double& aEnd )
+{
+    double dx = aStartPt.x - aCenter.x;
+    double dy = aStartPt.y - aCenter.y;
+    double lim = 1e-7 / sqrt( dx*dx + dy*dy );
+
+    aStart = atan2( dy, dx );
+    aEnd = atan2( aEndPt.y - aCenter.y, aEndPt.x - aCenter.x );
+
+    if( aEnd < aStart )
+        aEnd += 2.0 * M_PI;
+
+    double k0 = floor( aStart / M_PI + 0.5 );
+    double k1 = floor( aEnd / M_PI + 0.5 );
+
+    if( abs( aStart - k0 * M_PI ) < lim )
+        aStart = k0 * M_PI;
+
+    if( abs( aEnd - k1 * M_PI ) < lim )
+        aEnd = k1 * M_PI;
+
+    return;
+}
+
+
 IGES_GEOM_PCB::IGES_GEOM_PCB()
 {
     mIsClosed = false;
@@ -1171,19 +1201,10 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
         p1.x = pc.x - p1.x;
         pc.x = 0.0;
 
-        a0 = atan2( p0.y - pc.y, p0.x );
-        a1 = atan2( p1.y - pc.y, p1.x );
-
-        if( a1 < a0 )
-            a1 += 2.0 * M_PI;
-
-    }
-    else
-    {
-        a0 = aSegment->GetMSAngle();
-        a1 = aSegment->GetMEAngle();
     }
 
+    getArcAngles( pc, p0, p1, a0, a1 );
+
     if( a0 >= 0.0 && a0 < M_PI )
     {
         if( a1 <= M_PI )
@@ -1628,8 +1649,7 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
     double spt[3][3];       // start points for each angle
     double cpt[3];          // center point for all angles
 
-    sAng = aSegment->GetStartAngle();
-    eAng = aSegment->GetEndAngle();
+    getArcAngles( mcenter, mstart, mend, sAng, eAng );
 
     ptArc[0] = mstart;
     ptArc[0].x = ( ptArc[0].x - offX ) * aScale;
@@ -1652,12 +1672,6 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
         cpt[1] = 1.0 - cpt[1];
     }
 
-    if( sAng > M_PI )
-    {
-        sAng -= 2.0 * M_PI;
-        eAng -= 2.0 * M_PI;
-    }
-
     int na = 0; // number of arcs in the curve
     spt[0][0] = ptArc[0].x;
     spt[0][1] = ptArc[0].y;
-- 
2.43.0


From 1ee8c05cfa1246a8c4d50078e1694ebafa02313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 129/198] fix: use after free when NURBS entities are given
 their own data

---
 src/entities/entity126.cpp | 18 +++++++-----------
 src/entities/entity128.cpp | 25 ++++++++-----------------
 2 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 7ad85ff..ab625e6 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1069,17 +1069,10 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     K = nCoeff - 1;
     M = order - 1;
 
-    if( knots )
-    {
-        delete [] knots;
-        knots = NULL;
-    }
-
-    if( coeffs )
-    {
-        delete [] coeffs;
-        coeffs = NULL;
-    }
+    // the caller may have passed the arrays of this entity (see GetNURBSData)
+    // so they must not be deleted before they have been copied
+    double* oldKnots = knots;
+    double* oldCoeffs = coeffs;
 
     // flag whether the curve is rational or polynomial
     if( isRational )
@@ -1121,6 +1114,9 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     for( int i = 0; i < nDbls; ++i )
         coeffs[i] = coeff[i];
 
+    delete [] oldKnots;
+    delete [] oldCoeffs;
+
     // determine planarity
     if( hasUniquePlane( &vnorm ) )
         PROP1 = 1;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 85de318..589fe7d 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -1022,23 +1022,11 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     M1 = order1 - 1;
     M2 = order2 - 1;
 
-    if( knots1 )
-    {
-        delete [] knots1;
-        knots1 = NULL;
-    }
-
-    if( knots2 )
-    {
-        delete [] knots2;
-        knots2 = NULL;
-    }
-
-    if( coeffs )
-    {
-        delete [] coeffs;
-        coeffs = NULL;
-    }
+    // the caller may have passed the arrays of this entity (see GetNURBSData)
+    // so they must not be deleted before they have been copied
+    double* oldKnots1 = knots1;
+    double* oldKnots2 = knots2;
+    double* oldCoeffs = coeffs;
 
     // flag whether the surface is rational or polynomial
     if( isRational )
@@ -1097,6 +1085,9 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     for( int i = 0; i < nDbls; ++i )
         coeffs[i] = coeff[i];
 
+    delete [] oldKnots1;
+    delete [] oldKnots2;
+    delete [] oldCoeffs;
 
     // XXX - TO BE IMPLEMENTED: determine closure on U (PROP1) and V (PROP2)
     // for now we set the surface as Open in U and Open in V unless the user
-- 
2.43.0


From 72b05930588dc40a4b4a3d89dbd5ca6195a71986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 130/198] fix: NURBS curves on a line were reported as planar
 and planar ones with aligned control points as not planar

---
 src/entities/entity126.cpp | 88 +++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index ab625e6..9363664 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1151,65 +1151,63 @@ bool IGES_ENTITY_126::hasUniquePlane( MCAD_POINT* norm )
         return false;
     }
 
-    // we must test for planarity by taking the normal vector of every
-    // 3 control points; if all normals are equal (or anti) then we have a plane
-    MCAD_POINT p0;
-    MCAD_POINT p1;
-    MCAD_POINT p2;
-
-    MCAD_POINT* pts[3] = { &p0, &p1, &p2 };
+    // take the most reliable normal vector of all those which involve the first
+    // point and the point which is farthest from it, then test whether all points
+    // lie on the plane; there is no unique plane if all points are on a line
+    norm->x = 0.0;
+    norm->y = 0.0;
+    norm->z = 1.0;
 
-    int i = 0;
-    int j = 0;
+    const int stride = ( 0 == PROP3 ) ? 4 : 3;
+    const MCAD_POINT p0( coeffs[0], coeffs[1], coeffs[2] );
+    MCAD_POINT far;
+    double size = 0.0;
 
-    MCAD_POINT tnorm0;
-    MCAD_POINT tnorm1;
-
-    for( i = 0; i < 3; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        pts[i]->x = coeffs[j++];
-        pts[i]->y = coeffs[j++];
-        pts[i]->z = coeffs[j++];
+        const double* cp = &coeffs[i * stride];
+        MCAD_POINT v( cp[0] - p0.x, cp[1] - p0.y, cp[2] - p0.z );
+        double d = sqrt( v.x * v.x + v.y * v.y + v.z * v.z );
 
-        if( 0 == PROP3 )
-            ++j;
+        if( d > size )
+        {
+            size = d;
+            far = v;
+        }
     }
 
-    CalcNormal( &p0, &p1, &p2, norm );
-
-    if( nCoeffs == 3 )
-        return true;
-
-    tnorm0 = *norm;
-    MCAD_POINT* px;
+    MCAD_POINT n;
+    double area = 0.0;
 
-    for( i = 3; i < nCoeffs; ++i )
+    for( int i = 1; i < nCoeffs; ++i )
     {
-        px = pts[0];
-        pts[0] = pts[1];
-        pts[1] = pts[2];
-        pts[2] = px;
+        const double* cp = &coeffs[i * stride];
+        MCAD_POINT v( cp[0] - p0.x, cp[1] - p0.y, cp[2] - p0.z );
+        MCAD_POINT c( far.y * v.z - far.z * v.y, far.z * v.x - far.x * v.z,
+            far.x * v.y - far.y * v.x );
+        double d = sqrt( c.x * c.x + c.y * c.y + c.z * c.z );
 
-        pts[2]->x = coeffs[j++];
-        pts[2]->y = coeffs[j++];
-        pts[2]->z = coeffs[j++];
+        if( d > area )
+        {
+            area = d;
+            n = c;
+        }
+    }
 
-        if( 0 == PROP3 )
-            ++j;
+    if( !( area > 1e-8 * size * size ) )
+        return false;
 
-        CalcNormal( pts[0], pts[1], pts[2], &tnorm1 );
+    n *= 1.0 / area;
 
-        if( !PointMatches( tnorm0, tnorm1, 1e-8 )
-            && !PointMatches( tnorm0, tnorm1 * -1.0, 1e-8 ) )
-        {
-            norm->x = 0.0;
-            norm->y = 0.0;
-            norm->z = 1.0;
-            return false;
-        }
+    for( int i = 1; i < nCoeffs; ++i )
+    {
+        const double* cp = &coeffs[i * stride];
+        double d = n.x * ( cp[0] - p0.x ) + n.y * ( cp[1] - p0.y ) + n.z * ( cp[2] - p0.z );
 
-        tnorm0 = tnorm1;
+        if( fabs( d ) > 1e-8 * size )
+            return false;
     }
 
+    *norm = n;
     return true;
 }
-- 
2.43.0


From ad5ce2a60a89e13d2c6cc498a48db490a2d03a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 131/198] fix: composite curves of a single closed ellipse or
 NURBS curve were reported as open

---
 src/entities/entity102.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..cca8df9 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -682,8 +682,8 @@ bool IGES_ENTITY_102::IsClosed( void )
     std::list<IGES_CURVE*>::reverse_iterator lc = curves.rbegin();
 
     // we require at least 1 item which reports segments > 0
-    if( curves.size() == 1 && (*sc)->GetEntityType() != ENT_CIRCULAR_ARC )
-        return false;
+    if( curves.size() == 1 )
+        return (*sc)->IsClosed();
 
     MCAD_POINT p1;
     MCAD_POINT p2;
-- 
2.43.0


From 20273f6faef010953a84710325c8b662255b324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 132/198] fix: IDF reader: character classification of bytes
 above 127 and an uninitialised comment flag

---
 src/idf/idf_helpers.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/idf/idf_helpers.cpp b/src/idf/idf_helpers.cpp
index aa54d37..4595257 100644
--- a/src/idf/idf_helpers.cpp
+++ b/src/idf/idf_helpers.cpp
@@ -35,6 +35,7 @@ using namespace IDF3;
 bool IDF3::FetchIDFLine( std::ifstream& aModel, std::string& aLine, bool& isComment, std::streampos& aFilePos )
 {
     aLine = "";
+    isComment = false;
     aFilePos = aModel.tellg();
 
     if( -1 == aFilePos )
@@ -42,8 +43,6 @@ bool IDF3::FetchIDFLine( std::ifstream& aModel, std::string& aLine, bool& isComm
 
     std::getline( aModel, aLine );
 
-    isComment = false;
-
     // A comment begins with a '#' and must be the first character on the line
     if( aLine[0] == '#' )
     {
@@ -53,10 +52,10 @@ bool IDF3::FetchIDFLine( std::ifstream& aModel, std::string& aLine, bool& isComm
     }
 
     // strip leading and trailing spaces
-    while( !aLine.empty() && isspace( *aLine.begin() ) )
+    while( !aLine.empty() && isspace( (unsigned char) *aLine.begin() ) )
         aLine.erase( aLine.begin() );
 
-    while( !aLine.empty() && isspace( *aLine.rbegin() ) )
+    while( !aLine.empty() && isspace( (unsigned char) *aLine.rbegin() ) )
         aLine.erase( --aLine.end() );
 
     // a comment line may be empty to improve human readability
@@ -83,7 +82,7 @@ bool IDF3::GetIDFString( const std::string& aLine, std::string& aIDFString,
     if( idx < 0 || idx >= len )
         return false;
 
-    while( isspace( aLine[idx] ) && idx < len ) ++idx;
+    while( idx < len && isspace( (unsigned char) aLine[idx] ) ) ++idx;
 
     if( idx == len )
     {
@@ -95,7 +94,7 @@ bool IDF3::GetIDFString( const std::string& aLine, std::string& aIDFString,
     {
         hasQuotes = true;
         ++idx;
-        while( aLine[idx] != '"' && idx < len )
+        while( idx < len && aLine[idx] != '"' )
             ostr << aLine[idx++];
 
         if( idx == len )
@@ -112,7 +111,7 @@ bool IDF3::GetIDFString( const std::string& aLine, std::string& aIDFString,
     {
         hasQuotes = false;
 
-        while( !isspace( aLine[idx] ) && idx < len )
+        while( idx < len && !isspace( (unsigned char) aLine[idx] ) )
             ostr << aLine[idx++];
 
     }
@@ -135,7 +134,7 @@ bool IDF3::CompareToken( const char* aTokenString, const std::string& aInputStri
     j = aInputString.length();
 
     for( i = 0; i < j; ++i )
-        bigToken[i] = std::toupper( bigToken[i] );
+        bigToken[i] = std::toupper( (unsigned char) bigToken[i] );
 
     if( !bigToken.compare( aTokenString ) )
         return true;
-- 
2.43.0


From 71a819f29a7488cd23db7fd7b26504209d674d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 133/198] fix: IDF reader: outlines leaked when their section
 was malformed

---
 src/idf/idf_parser.cpp | 87 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 8 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..6652fa6 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -2008,7 +2008,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create OTHER_OUTLINE object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2052,7 +2061,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create ROUTE_OUTLINE object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2085,7 +2103,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create PLACE_OUTLINE object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2118,7 +2145,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create ROUTE_KEEPOUT object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2151,7 +2187,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create VIA_KEEPOUT object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2184,7 +2229,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create PLACE_KEEPOUT object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2217,7 +2271,16 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
                                   "could not create PLACE_REGION object" ) );
 
             op->SetUnit( unit );
-            op->readData( aBoardFile, iline, idfVer );
+
+            try
+            {
+                op->readData( aBoardFile, iline, idfVer );
+            }
+            catch( ... )
+            {
+                delete op;
+                throw;
+            }
 
             if( !comments.empty() )
             {
@@ -2484,7 +2547,15 @@ void IDF3_BOARD::readLibSection( std::ifstream& aLibFile, IDF3::FILE_STATE& aLib
 
         if( CompareToken( ".ELECTRICAL", token ) || CompareToken( ".MECHANICAL", token ) )
         {
-            pout->readData( aLibFile, token, idfVer );
+            try
+            {
+                pout->readData( aLibFile, token, idfVer );
+            }
+            catch( ... )
+            {
+                delete pout;
+                throw;
+            }
 
             if( !comments.empty() )
             {
-- 
2.43.0


From 8d4efcf3ac71d77e27c89219b062e943840116ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 134/198] fix: IDF reader: a section following an unknown line
 was misread

---
 src/idf/idf_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 6652fa6..f5164f5 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1948,6 +1948,7 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
         }
 
         // This must be a header
+        idx = 0;
         GetIDFString( iline, token, quoted, idx );
 
         if( quoted )
@@ -2531,6 +2532,7 @@ void IDF3_BOARD::readLibSection( std::ifstream& aLibFile, IDF3::FILE_STATE& aLib
         }
 
         // This must be a header
+        idx = 0;
         GetIDFString( iline, token, quoted, idx );
 
         if( quoted )
-- 
2.43.0


From c69d83dd8c202e7878e0df3abe4810636ee4df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 135/198] fix: IDF 2.0 reader: TNM units of components and
 their positions

---
 src/idf/idf_outlines.cpp | 2 +-
 src/idf/idf_parser.cpp   | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..f5d7c11 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3251,7 +3251,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index f5164f5..181aafa 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -637,6 +637,12 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( aIdfVersion == IDF_V2 && aBoard->GetUnit() == IDF3::UNIT_TNM )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+        zoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From a647156ea84bee2b8fe9e18db82f8e7aa3606d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 136/198] fix: IDF reader: the unread part of an outline field
 was read as part of the next one

---
 src/idf/idf_outlines.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f5d7c11..ef10ffa 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -240,7 +240,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> tmp;
         if( tstr.fail() )
@@ -444,7 +444,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> x;
         if( tstr.fail() )
@@ -484,7 +484,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> y;
         if( tstr.fail() )
@@ -524,7 +524,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
-        tstr << entry;
+        tstr.str( entry );
 
         tstr >> ang;
         if( tstr.fail() )
-- 
2.43.0


From 83583b90f2f8474781981ad0aad895681c8ee24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 137/198] fix: IDF reader: integer overflow in the angle of an
 arc with extreme coordinates

---
 src/idf/idf_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 40a285a..33cdb5b 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -876,9 +876,9 @@ double IDF3::CalcAngleDeg( const IDF_POINT& aStartPoint, const IDF_POINT& aEndPo
     double ang = CalcAngleRad( aStartPoint, aEndPoint );
 
     // round to thousandths of a degree
-    int iang = int (ang / M_PI * 1800000.0);
-
-    ang = iang / 10000.0;
+    // (the angle is not a number if the points are too far apart)
+    ang = ang / M_PI * 1800000.0;
+    ang = ( ang < 0.0 ? ceil( ang ) : floor( ang ) ) / 10000.0;
 
     return ang;
 }
-- 
2.43.0


From d72f8482c6211c2f351b3e7b3df2a1f2967238ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 138/198] fix: IDF reader: winding of outlines with long arcs

---
 src/idf/idf_common.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 33cdb5b..41e03b7 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -1359,29 +1359,18 @@ bool IDF_OUTLINE::push( IDF_SEGMENT* item )
     outline.push_back( item );
 
     double ang = outline.back()->angle;
-    double oang = outline.back()->offsetAngle;
     double radius = outline.back()->radius;
 
     if( ang < -MIN_ANG || ang > MIN_ANG )
     {
-        // arcs require special consideration since the winding depends on
-        // the arc length; the arc length is adequately represented by
-        // taking 2 cords from the endpoints to the midpoint of the arc.
-        oang = (oang + ang / 2.0) * M_PI / 180.0;
-        double midx = outline.back()->center.x + radius * cos( oang );
-        double midy = outline.back()->center.y + radius * sin( oang );
-
-        dir += ( outline.back()->endPoint.x - midx )
-        * ( outline.back()->endPoint.y + midy );
-
-        dir += ( midx - outline.back()->startPoint.x )
-        * ( midy + outline.back()->startPoint.y );
-    }
-    else
-    {
-        dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
-        * ( outline.back()->endPoint.y + outline.back()->startPoint.y );
+        // arcs require special consideration since the area between
+        // the arc and its chord contributes to the winding
+        ang *= M_PI / 180.0;
+        dir -= radius * radius * ( ang - sin( ang ) );
     }
 
+    dir += ( outline.back()->endPoint.x - outline.back()->startPoint.x )
+    * ( outline.back()->endPoint.y + outline.back()->startPoint.y );
+
     return true;
 }
-- 
2.43.0


From 9edc840cdd5c2ecf439fcc938ff7d604ec888bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 139/198] fix: idf2igs: null pointer dereference if a component
 has no outline in the library

---
 src/idf/idf2igs.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..c762c8a 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -915,7 +915,16 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
         while( so != eo )
         {
-            uid = ((IDF3_COMP_OUTLINE*)((*so)->GetOutline()))->GetUID().c_str();
+            IDF3_COMP_OUTLINE* oln = (IDF3_COMP_OUTLINE*)((*so)->GetOutline());
+
+            if( !oln )
+            {
+                // the library contains no outline for this component
+                ++so;
+                continue;
+            }
+
+            uid = oln->GetUID();
             map<string, IGES_ENTITY_308*>::iterator outline =
                 componentList.find( uid );
 
-- 
2.43.0


From 319f80c32777a9496cd96eb92c1a8b37182cd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 140/198] fix: idf2igs: unplaced components were put on the
 board

---
 src/idf/idf2igs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index c762c8a..b641bfe 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -903,6 +903,13 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
     while( sc != ec )
     {
+        // a component which is not placed has no meaningful position
+        if( sc->second->GetPlacement() == IDF3::PS_UNPLACED )
+        {
+            ++sc;
+            continue;
+        }
+
         so = sc->second->GetOutlinesData()->begin();
         eo = sc->second->GetOutlinesData()->end();
         // position and orientation of the component on the board
-- 
2.43.0


From 935c60a853b9aae01e70990e3e2313ab637bb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 141/198] fix: idf2igs: failures were not reported, leaks; only
 one OTHER_OUTLINE could be converted

---
 src/idf/idf2igs.cpp | 50 ++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index b641bfe..9f51edb 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -169,15 +169,20 @@ int main( int argc, char **argv )
     cerr << "Output file: '" << fname << "'\n";
 
     // STEP 1: Render the PCB alone
-    MakeBoard( pcb, model );
-
     // STEP 2: Render the components
-    MakeComponents( pcb, model );
-
     // STEP 3: Render the OTHER outlines
-    MakeOtherOutlines( pcb, model );
+    if( !MakeBoard( pcb, model ) || !MakeComponents( pcb, model )
+        || !MakeOtherOutlines( pcb, model ) )
+    {
+        cerr << "** Failed to convert IDF data\n";
+        return -1;
+    }
 
-    model.Write( fname.c_str(), true );
+    if( !model.Write( fname.c_str(), true ) )
+    {
+        cerr << "** Failed to write file: '" << fname << "'\n";
+        return -1;
+    }
 
     return 0;
 }
@@ -348,10 +353,15 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
     double th = 0.5 * board.GetBoardThickness();
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true );
-    otln.Detach();
+
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, -th )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -th, true ) )
+    {
+        ERROR_IDF << "\n + could not create the surfaces of the board\n";
+        delete [] surfs;
+        return false;
+    }
 
     IGES_ENTITY_308* subfig;
 
@@ -374,6 +384,8 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
         e308.AddDE( (IGES_ENTITY *)surfs[i] );
     }
 
+    delete [] surfs;
+
     // add the name
     #ifdef ENABLE_TYPE_406
     DLL_IGES_ENTITY_406 e406( model, true );
@@ -982,8 +994,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
     std::map< std::string, OTHER_OUTLINE* >::const_iterator sc = comp->begin();
     std::map< std::string, OTHER_OUTLINE* >::const_iterator ec = comp->end();
 
-    DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
-
     while( sc != ec )
     {
         if( sc->second->OutlinesSize() < 1 )
@@ -992,6 +1002,7 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
             continue;
         }
 
+        DLL_IGES_GEOM_PCB otln( true );     // main outline for this section
         DLL_MCAD_OUTLINE  loop( false );    // individual outlines
         MCAD_OUTLINE* pIGS;
         list< MCAD_OUTLINE* > cutouts;
@@ -1160,14 +1171,19 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     IGES_ENTITY_144** surfs = NULL;
     int nSurfs = 0;
 
-    otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false );
-    otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true );
-    otln.Detach();
+    if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th, 0.0 )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th, false )
+        || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, 0.0, true ) )
+    {
+        ERROR_IDF << "\n + could not create the surfaces of a component\n";
+        delete [] surfs;
+        return false;
+    }
 
     if( !newSubfigure( model, subfig ) )
     {
         ERROR_IDF << "\n + could not create a subfigure entity\n";
+        delete [] surfs;
         return false;
     }
 
@@ -1184,6 +1200,8 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
         e308.AddDE((IGES_ENTITY *) surfs[i] );
     }
 
+    delete [] surfs;
+
     // add the name; note this dirty trick to work around retrieval of the UID
     #ifdef ENABLE_TYPE_406
     DLL_IGES_ENTITY_406 e406( model, true );
-- 
2.43.0


From 17656c106d0c66bafaca9e771b3c3d3300941384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 142/198] fix: idf2igs: both planes of an OTHER_OUTLINE faced
 the same way; lost cutouts

---
 src/idf/idf2igs.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 9f51edb..3039b52 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -227,6 +227,7 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
             if( scont != rcont )
                 loop.DelOutline();
 
+            killCutouts( cutouts );
             return false;
         }
 
@@ -1030,6 +1031,7 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
                 if( scont != rcont )
                     loop.DelOutline();
 
+                killCutouts( cutouts );
                 return false;
             }
 
@@ -1048,7 +1050,14 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
 
         while( sMO != eMO )
         {
-            otln.AddCutout( *sMO, true, dud );
+            if( !otln.AddCutout( *sMO, true, dud ) )
+            {
+                ERROR_IDF << "\n + could not add a cutout to an outline\n";
+                cutouts.erase( cutouts.begin(), sMO );
+                killCutouts( cutouts );
+                return false;
+            }
+
             ++sMO;
         }
 
@@ -1062,24 +1071,22 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         int nSurfs = 0;
         double th = sc->second->GetThickness();
 
-        if( bottom )
-        {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), -bt );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -(th + bt), true );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, -bt, true );
-        }
-        else
+        double zTop = bottom ? -bt : th + bt;
+        double zBot = bottom ? -(th + bt) : bt;
+
+        if( !otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, zTop, zBot )
+            || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, zTop, false )
+            || !otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, zBot, true ) )
         {
-            otln.GetVerticalSurface( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, bt );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, th + bt, false );
-            otln.GetTrimmedPlane( model.GetRawPtr(), dud, surfs, nSurfs, bt, false );
+            ERROR_IDF << "\n + could not create the surfaces of an outline\n";
+            delete [] surfs;
+            return false;
         }
 
         DLL_IGES_ENTITY_308 subfig( model, true );
 
         if( !subfig.IsValid() )
         {
-            otln.Detach();
             delete [] surfs;
             ERROR_IDF << "\n + could not create a subfigure entity\n";
             return false;
@@ -1116,7 +1123,6 @@ bool MakeOtherOutlines( IDF3_BOARD& board, DLL_IGES& model )
         ++sc;
     }
 
-    otln.Detach();
     return true;
 }
 
-- 
2.43.0


From c34f1ec7bf2e1b6ccb9763e9d582a0bab3c38d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 143/198] fix: idf2igs: overlapping, nested and chained drill
 holes and cutouts

---
 src/idf/idf2igs.cpp | 344 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 308 insertions(+), 36 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 3039b52..82225e3 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -81,6 +81,13 @@ bool convertDrills( list< MCAD_SEGMENT* >& drills, const list< IDF_DRILL_DATA* >
 bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts, bool& error );
 // take given drill list and punch a cutout using nearest holes in succession
 bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts );
+// drop all drills which are within other drills
+void pruneDrills( list< MCAD_SEGMENT* >& drills );
+// merge overlapping cutouts and drills and drop those which are within others;
+// return false if invalid geometry was encountered
+bool pruneCutouts( list< MCAD_OUTLINE* >& cutouts, list< MCAD_SEGMENT* >& drills );
+// retrieve a point on the outline
+bool getVertex( MCAD_OUTLINE* outline, MCAD_POINT& point );
 // delete drill data
 void killDrills( list< MCAD_SEGMENT* >& drills );
 // delete cutout data
@@ -258,6 +265,9 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     // and drill holes on the PCB edges while minimizing the chances of
     // creating invalid geometry conditions
 
+    // drop the drill holes which are within other drill holes
+    pruneDrills( drills );
+
     // check drill list for overlapping drills and convert all overlapping drills to cutouts
     bool dud = false;
     mergeDrills( drills, cutouts, dud );
@@ -311,13 +321,16 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
         {
             if( mO.AddOutline( *sDH , dud ) )
             {
-                sDH = drills.erase( sDH );
+                // the cutout may have grown into holes which were already checked
+                drills.erase( sDH );
+                sDH = drills.begin();
                 continue;
             }
 
             if( dud )
             {
                 ERROR_IDF << "\n + fatal error encountered while attempting to add drill hole to cutout\n";
+                mO.Detach();
                 killDrills( drills );
                 killCutouts( cutouts );
                 return false;
@@ -330,25 +343,64 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
         ++sMO;
     }
 
-    // add all cutouts and remaining drills to the main outline
-    sMO = cutouts.begin();
-    eMO = cutouts.end();
+    if( !pruneCutouts( cutouts, drills ) )
+    {
+        ERROR_IDF << "\n + fatal error encountered while attempting to merge cutouts\n";
+        killDrills( drills );
+        killCutouts( cutouts );
+        return false;
+    }
 
-    while( sMO != eMO )
+    // cut all cutouts which cross the edge, then add the cutouts
+    // and drills which are within the board
+    MCAD_POINT p0;
+
+    for( sMO = cutouts.begin(); sMO != cutouts.end(); )
     {
-        otln.AddCutout( *sMO, true, dud );
+        if( otln.SubOutline( *sMO, dud ) )
+        {
+            sMO = cutouts.erase( sMO );
+            continue;
+        }
+
+        if( dud )
+        {
+            ERROR_IDF << "\n + fatal error encountered while attempting to add a cutout\n";
+            killDrills( drills );
+            killCutouts( cutouts );
+            return false;
+        }
+
         ++sMO;
     }
 
-    sDH = drills.begin();
-    eDH = drills.end();
+    for( sMO = cutouts.begin(); sMO != cutouts.end(); )
+    {
+        if( getVertex( *sMO, p0 ) && otln.IsInside( p0, dud )
+            && otln.AddCutout( *sMO, false, dud ) )
+            sMO = cutouts.erase( sMO );
+        else
+            ++sMO;
+    }
 
-    while( sDH != eDH )
+    DLL_MCAD_SEGMENT seg( false );
+
+    for( sDH = drills.begin(); sDH != drills.end(); )
     {
-        otln.AddCutout( *sDH, false, dud );
-        ++sDH;
+        seg.Attach( *sDH );
+        seg.GetCenter( p0 );
+        seg.Detach();
+
+        if( otln.IsInside( p0, dud ) && otln.AddCutout( *sDH, false, dud ) )
+            sDH = drills.erase( sDH );
+        else
+            ++sDH;
     }
 
+    // whatever is left is not on the board
+    killDrills( drills );
+    killCutouts( cutouts );
+
     // put in part and solid instance, names, and color
     // create the PCB model
     IGES_ENTITY_144** surfs = NULL;
@@ -619,15 +671,6 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
                         }
 
                         seg1.Detach();
-
-                        if( flag )
-                        {
-                            ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
-                            seg0.Detach();
-                            seg2.Detach();
-                            return false;
-                        }
-
                         ++sD1;
                     }
 
@@ -639,13 +682,6 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
                 continue;
             }
 
-            if( flag )
-            {
-                seg2.Detach();
-                ERROR_IDF << "\n + [INFO] geometry error (flag = " << flag << ")\n";
-                return false;
-            }
-
             ++iD;
         }
 
@@ -666,16 +702,18 @@ bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts,
 
     while( sB != eB )
     {
-        if( !bundleDrills( *sB, cutouts ) )
+        if( !error && !bundleDrills( *sB, cutouts ) )
         {
             ERROR_IDF << "\n + [INFO] problems encountered while merging drill holes\n";
-            return false;
+            error = true;
         }
 
+        killDrills( **sB );
+        delete *sB;
         ++sB;
     }
 
-    return true;
+    return !error;
 }
 
 
@@ -738,20 +776,254 @@ bool bundleDrills( list< MCAD_SEGMENT* >* drills, list< MCAD_OUTLINE* >& cutouts
 
     DLL_MCAD_OUTLINE op( true );
     bool dud = false;
-    op.AddSegment( drills->front(), dud );
+
+    if( !op.AddSegment( drills->front(), dud ) )
+        return false;
+
+    drills->pop_front();
+
+    // each drill in turn must overlap the drills which are already merged
+    while( !dist.empty() )
+    {
+        size_t i;
+
+        for( i = 0; i < dist.size(); ++i )
+        {
+            if( op.AddOutline( dist[i].second, dud ) )
+                break;
+        }
+
+        if( i < dist.size() )
+        {
+            drills->remove( dist[i].second );
+            dist.erase( dist.begin() + i );
+            continue;
+        }
+
+        // drop the drills which are within the merged drills
+        for( i = 0; i < dist.size(); )
+        {
+            seg0.Attach( dist[i].second );
+            seg0.GetCenter( p1 );
+            seg0.GetRadius( r1 );
+            seg0.Detach();
+            p1.x += r1;
+
+            if( op.AddOutline( dist[i].second, dud ) || dud || !op.IsInside( p1, dud ) )
+            {
+                ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
+                return false;
+            }
+
+            // (the caller deletes the drills which remain in the list)
+            dist.erase( dist.begin() + i );
+        }
+    }
+
     cutouts.push_back( op.GetRawPtr() );
+    op.Detach();
+    return true;
+}
+
 
-    for( size_t i = 0; i < nd; ++i )
+// drop all drills which are within other drills
+void pruneDrills( list< MCAD_SEGMENT* >& drills )
+{
+    list< MCAD_SEGMENT* >::iterator sD = drills.begin();
+    DLL_MCAD_SEGMENT seg0( false );
+    DLL_MCAD_SEGMENT seg1( false );
+    MCAD_POINT p0;
+    MCAD_POINT p1;
+    double r0;
+    double r1;
+
+    while( sD != drills.end() )
     {
-        if( !op.AddOutline( dist[i].second, dud ) )
+        seg0.Attach( *sD );
+        seg0.GetCenter( p0 );
+        seg0.GetRadius( r0 );
+
+        list< MCAD_SEGMENT* >::iterator iD = drills.begin();
+
+        while( iD != drills.end() )
         {
-            ERROR_IDF << "\n + [INFO] could not merge drill holes\n";
-            return false;
+            if( iD != sD )
+            {
+                seg1.Attach( *iD );
+                seg1.GetCenter( p1 );
+                seg1.GetRadius( r1 );
+                seg1.Detach();
+
+                if( sqrt( (p1.x - p0.x) * (p1.x - p0.x) + (p1.y - p0.y) * (p1.y - p0.y) ) + r0 <= r1 + 1e-6 )
+                    break;
+            }
+
+            ++iD;
+        }
+
+        if( iD != drills.end() )
+        {
+            seg0.DelSegment();
+            seg0.Detach();
+            sD = drills.erase( sD );
         }
+        else
+        {
+            seg0.Detach();
+            ++sD;
+        }
+    }
+
+    return;
+}
+
+
+// retrieve a point on the outline
+bool getVertex( MCAD_OUTLINE* outline, MCAD_POINT& point )
+{
+    DLL_MCAD_OUTLINE op( false );
+    DLL_MCAD_SEGMENT seg( false );
+    MCAD_SEGMENT** segs = NULL;
+    int nSegs = 0;
+    bool ok = false;
+
+    op.Attach( outline );
+
+    if( op.GetSegments( segs, nSegs ) && nSegs > 0 )
+    {
+        seg.Attach( segs[0] );
+        ok = seg.GetStart( point );
+        seg.Detach();
     }
 
+    delete [] segs;
     op.Detach();
-    drills->clear();
+    return ok;
+}
+
+
+// merge overlapping cutouts and drills and drop those which are within others;
+// return false if invalid geometry was encountered
+bool pruneCutouts( list< MCAD_OUTLINE* >& cutouts, list< MCAD_SEGMENT* >& drills )
+{
+    DLL_MCAD_OUTLINE op( false );
+    DLL_MCAD_OUTLINE out0( false );
+    DLL_MCAD_SEGMENT seg0( false );
+    list< MCAD_OUTLINE* >::iterator sO = cutouts.begin();
+    list< MCAD_OUTLINE* >::iterator iO;
+    list< MCAD_SEGMENT* >::iterator sD;
+    MCAD_POINT p0;
+    double r0;
+    bool dud = false;
+
+    while( sO != cutouts.end() )
+    {
+        op.Attach( *sO );
+        iO = cutouts.begin();
+
+        while( iO != cutouts.end() )
+        {
+            if( iO == sO )
+            {
+                ++iO;
+                continue;
+            }
+
+            if( op.AddOutline( *iO, dud ) )
+            {
+                // the cutout has grown
+                cutouts.erase( iO );
+                iO = cutouts.begin();
+                continue;
+            }
+
+            if( dud )
+            {
+                op.Detach();
+                return false;
+            }
+
+            if( getVertex( *iO, p0 ) && op.IsInside( p0, dud ) )
+            {
+                out0.Attach( *iO );
+                out0.DelOutline();
+                out0.Detach();
+                iO = cutouts.erase( iO );
+                continue;
+            }
+
+            ++iO;
+        }
+
+        for( sD = drills.begin(); sD != drills.end(); )
+        {
+            seg0.Attach( *sD );
+            seg0.GetCenter( p0 );
+            seg0.GetRadius( r0 );
+            p0.x += r0;
+
+            if( op.AddOutline( *sD, dud ) )
+            {
+                seg0.Detach();
+                drills.erase( sD );
+                sD = drills.begin();
+                continue;
+            }
+
+            if( dud )
+            {
+                seg0.Detach();
+                op.Detach();
+                return false;
+            }
+
+            if( op.IsInside( p0, dud ) )
+            {
+                seg0.DelSegment();
+                seg0.Detach();
+                sD = drills.erase( sD );
+                continue;
+            }
+
+            seg0.Detach();
+            ++sD;
+        }
+
+        op.Detach();
+        ++sO;
+    }
+
+    // drop the cutouts which are within a drill
+    for( sO = cutouts.begin(); sO != cutouts.end(); )
+    {
+        bool inside = false;
+        MCAD_POINT p1;
+
+        if( getVertex( *sO, p1 ) )
+        {
+            for( sD = drills.begin(); sD != drills.end() && !inside; ++sD )
+            {
+                seg0.Attach( *sD );
+                seg0.GetCenter( p0 );
+                seg0.GetRadius( r0 );
+                seg0.Detach();
+                inside = (p1.x - p0.x) * (p1.x - p0.x) + (p1.y - p0.y) * (p1.y - p0.y) < r0 * r0;
+            }
+        }
+
+        if( inside )
+        {
+            out0.Attach( *sO );
+            out0.DelOutline();
+            out0.Detach();
+            sO = cutouts.erase( sO );
+        }
+        else
+        {
+            ++sO;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 147793169520994ec68e21cc5750da321c79ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 144/198] fix: idf2igs: null pointer dereference if a component
 of the library has an empty outline

---
 src/idf/idf2igs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 82225e3..f4bcb3d 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -1425,7 +1425,8 @@ bool buildComponent( DLL_IGES& model, const IDF3_COMP_OUTLINE* idf, IGES_ENTITY_
     // note we defeat the 'const' attribute here
     IDF_OUTLINE* op = ((IDF3_COMP_OUTLINE*)idf)->GetOutline( 0 );
 
-    if( op->empty() )
+    // there is no outline to render
+    if( !op || op->empty() )
         return true;
 
     double th = idf->GetThickness();
-- 
2.43.0


From 527524f6eb267867747c467d1f4080b761c75f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 145/198] fix: idf2igs: a drill hole within a circular cutout,
 or one cutout within another, failed the conversion

---
 src/idf/idf2igs.cpp | 50 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index f4bcb3d..533d106 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -76,6 +76,8 @@ bool initColors( DLL_IGES& model, IGES_ENTITY_314** colors );
 // convert IDF outline to IGS outline
 bool convertOln( MCAD_OUTLINE* olnIGS, IDF_OUTLINE* olnIDF );
 bool convertDrills( list< MCAD_SEGMENT* >& drills, const list< IDF_DRILL_DATA* >* dh );
+// create a circle
+MCAD_SEGMENT* newCircle( double x, double y, double radius );
 // merge overlapping drills into cutouts; return true if any drills were merged;
 // if invalid geometry was encountered the error flag will be set
 bool mergeDrills( list< MCAD_SEGMENT* >& drills, list< MCAD_OUTLINE* >& cutouts, bool& error );
@@ -218,6 +220,15 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
     // extract the board outline and cutouts
     while( scont != econt )
     {
+        // a circular cutout is the same as a drill hole
+        if( scont != rcont && (*scont)->size() == 1 && (*scont)->front()->IsCircle() )
+        {
+            drills.push_back( newCircle( (*scont)->front()->center.x, (*scont)->front()->center.y,
+                                         (*scont)->front()->radius ) );
+            ++scont;
+            continue;
+        }
+
         if( scont == rcont )
         {
             pIGS = otln.GetRawPtr();
@@ -234,6 +245,7 @@ bool MakeBoard( IDF3_BOARD& board, DLL_IGES& model )
             if( scont != rcont )
                 loop.DelOutline();
 
+            killDrills( drills );
             killCutouts( cutouts );
             return false;
         }
@@ -554,29 +566,37 @@ bool convertDrills( list< MCAD_SEGMENT* >& drills, const list<IDF_DRILL_DATA*>*
 
     list< IDF_DRILL_DATA* >::const_iterator sD = dh->begin();
     list< IDF_DRILL_DATA* >::const_iterator eD = dh->end();
-    DLL_MCAD_SEGMENT sp( false );
-    MCAD_POINT p[2];
 
     while( sD != eD )
     {
-        sp.NewSegment();
+        drills.push_back( newCircle( (*sD)->GetDrillXPos(), (*sD)->GetDrillYPos(),
+                                     0.5 * (*sD)->GetDrillDia() ) );
+        ++sD;
+    }
 
-        p[0].x = (*sD)->GetDrillXPos();
-        p[0].y = (*sD)->GetDrillYPos();
-        p[0].z = 0.0;
+    return true;
+}
 
-        p[1].x = p[0].x + 0.5 * (*sD)->GetDrillDia();
-        p[1].y = p[0].y;
-        p[1].z = 0.0;
 
-        sp.SetParams( p[0], p[1], p[1], false );
-        drills.push_back( sp.GetRawPtr() );
-        sp.Detach();
+// create a circle
+MCAD_SEGMENT* newCircle( double x, double y, double radius )
+{
+    DLL_MCAD_SEGMENT sp( true );
+    MCAD_POINT p[2];
 
-        ++sD;
-    }
+    p[0].x = x;
+    p[0].y = y;
+    p[0].z = 0.0;
 
-    return true;
+    p[1].x = x + radius;
+    p[1].y = y;
+    p[1].z = 0.0;
+
+    sp.SetParams( p[0], p[1], p[1], false );
+
+    MCAD_SEGMENT* circle = sp.GetRawPtr();
+    sp.Detach();
+    return circle;
 }
 
 
-- 
2.43.0


From ef9f948ec31265f6c6bc9313745117679ac5f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 146/198] fix: cylindrical walls could not be made if an arc
 reached just beyond a quadrant

---
 src/geom/geom_cylinder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 4b4fc10..93a76fa 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -79,7 +79,9 @@ static void getArcAngles( const MCAD_POINT& aCenter, const MCAD_POINT& aStartPt,
 {
     double dx = aStartPt.x - aCenter.x;
     double dy = aStartPt.y - aCenter.y;
-    double lim = 1e-7 / sqrt( dx*dx + dy*dy );
+    // a piece must be longer than the resolution of a model in space as well as in
+    // the parameter space of the surface
+    double lim = max( 1e-6 / sqrt( dx*dx + dy*dy ), 2e-8 );
 
     aStart = atan2( dy, dx );
     aEnd = atan2( aEndPt.y - aCenter.y, aEndPt.x - aCenter.x );
-- 
2.43.0


From b6bbee4cb9350c777cc5e38056f77ca4f8538eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 147/198] fix: planes of boards could not be made if an arc
 reached just beyond a quadrant

---
 src/geom/iges_geom_pcb.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 6412776..2418666 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -153,13 +153,13 @@ static bool newArc126( IGES* aModel, IGES_ENTITY_126** ap )
 // the start and end angle of a counterclockwise arc: -M_PI <= aStart <= M_PI and
 // aStart < aEnd <= aStart + 2*M_PI. An angle which is within rounding error of a
 // multiple of M_PI takes that value since the arc must not be split into a piece
-// which has no length.
+// which is shorter than aMinLength.
 static void getArcAngles( const MCAD_POINT& aCenter, const MCAD_POINT& aStartPt,
-    const MCAD_POINT& aEndPt, double& aStart, double& aEnd )
+    const MCAD_POINT& aEndPt, double aMinLength, double& aStart, double& aEnd )
 {
     double dx = aStartPt.x - aCenter.x;
     double dy = aStartPt.y - aCenter.y;
-    double lim = 1e-7 / sqrt( dx*dx + dy*dy );
+    double lim = aMinLength / sqrt( dx*dx + dy*dy );
 
     aStart = atan2( dy, dx );
     aEnd = atan2( aEndPt.y - aCenter.y, aEndPt.x - aCenter.x );
@@ -1203,7 +1203,7 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
 
     }
 
-    getArcAngles( pc, p0, p1, a0, a1 );
+    getArcAngles( pc, p0, p1, 1e-6, a0, a1 );
 
     if( a0 >= 0.0 && a0 < M_PI )
     {
@@ -1649,7 +1649,8 @@ bool IGES_GEOM_PCB::copArc( IGES* aModel, std::list<IGES_ENTITY_126*>& aCurves,
     double spt[3][3];       // start points for each angle
     double cpt[3];          // center point for all angles
 
-    getArcAngles( mcenter, mstart, mend, sAng, eAng );
+    // note: the resolution also applies to the curves in parameter space
+    getArcAngles( mcenter, mstart, mend, max( 1e-6, 2e-8 / aScale ), sAng, eAng );
 
     ptArc[0] = mstart;
     ptArc[0].x = ( ptArc[0].x - offX ) * aScale;
-- 
2.43.0


From a1d010d93f7f410a8014fa37d10292f2c691bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 148/198] fix: integer overflow in the bounding box of a large
 outline

---
 src/geom/mcad_outline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index fe9bd30..01e3f6d 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -2216,14 +2216,14 @@ void MCAD_OUTLINE::adjustBoundingBox( void )
     double minY = floor( mBottomLeft.y );
     double maxY = ceil( mTopRight.y );
 
-    int dx = (int)maxX - (int)minX;
-    int dy = (int)maxY - (int)minY;
+    double dx = maxX - minX;
+    double dy = maxY - minY;
 
-    if( dx % 2 )
-        dx += 1;
+    if( 0.0 != fmod( dx, 2.0 ) )
+        dx += 1.0;
 
-    if( dy % 2 )
-        dy += 1;
+    if( 0.0 != fmod( dy, 2.0 ) )
+        dy += 1.0;
 
     // Ensure that the scaling remains the same in both dimensions
     // otherwise Curve on Surface calculations will become distorted.
-- 
2.43.0


From fbfb5dbe5eb3c90a21d1c63b49800cdafe8f0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 149/198] fix: null pointer dereference when an outline with a
 single point is written

---
 src/idf/idf_outlines.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index ef10ffa..6e0c2a1 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -700,6 +700,10 @@ void BOARD_OUTLINE::writeOutline( std::ofstream& aBoardFile, IDF_OUTLINE* aOutli
         throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__,
                           "\n* BUG: NULL outline pointer" ) );
 
+    // a loop which consists of a single point has no segments
+    if( aOutline->empty() )
+        return;
+
     if( aOutline->size() == 1 )
     {
         if( !aOutline->front()->IsCircle() )
-- 
2.43.0


From a985782584d528cc588f313368eefaaeee0ae533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 150/198] fix: numbers were not read and written correctly if a
 program had set the global locale of C++; a long locale name was not restored

---
 src/iges/iges.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 727330a..945ff44 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -37,13 +37,14 @@
 //
 
 #include <libigesconf.h>
-#include <locale.h>
 #include <cstdlib>
 #include <cerrno>
 #include <sstream>
 #include <limits>
 #include <iomanip>
+#include <clocale>
 #include <ctime>
+#include <locale>
 #include <algorithm>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -236,26 +237,29 @@ static bool checkDate( const std::string aDate )
 class IGES_LOCALE
 {
 private:
-    char locale[80];
+    std::string clocale;    // locale of the C library
+    std::locale cxxlocale;  // locale of the streams
+
 public:
     IGES_LOCALE()
     {
-        const char *cp = setlocale( LC_NUMERIC, NULL );
-        if (NULL != cp)
-        {
-            sprintf(locale, "%.79s", cp);
-        }
-        else
-        {
-            locale[0] = 0;
-        }
+        const char *cp = setlocale( LC_ALL, NULL );
+
+        if( NULL != cp )
+            clocale = cp;
 
-        setlocale( LC_NUMERIC, "C" );     // switch the numerics locale to "C"
+        // switch to the "C" locale; a stream takes the global locale of C++
+        // which may be different from the locale of the C library
+        cxxlocale = std::locale::global( std::locale::classic() );
+        setlocale( LC_NUMERIC, "C" );
     }
 
     ~IGES_LOCALE()
     {
-        setlocale( LC_NUMERIC, locale );  // revert to the current numerics default locale
+        // revert to the user's locales; note that std::locale::global() may
+        // also change the locale of the C library
+        std::locale::global( cxxlocale );
+        setlocale( LC_ALL, clocale.c_str() );
     }
 };
 
@@ -2776,6 +2780,7 @@ void IGES::GetNewPartName( std::string& name )
 
     // to reduce likelihood of name clashes, use partYYYYDDDHHMMSSnnnn
     ostringstream ostr;
+    ostr.imbue( std::locale::classic() );
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
@@ -2796,6 +2801,7 @@ void IGES::GetNewAssemblyName( std::string& name )
 
     // to reduce likelihood of name clashes, use assyYYYYDDDHHMMSSnnnn
     ostringstream ostr;
+    ostr.imbue( std::locale::classic() );
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-- 
2.43.0


From c514f1c426f3537398221dc958a2d00ce3157ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 151/198] fix: numbers in IDF files were not read and written
 correctly if a program had set the global locale of C++

---
 src/idf/idf_parser.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 181aafa..6a15ce0 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -29,7 +29,9 @@
 #include <cmath>
 #include <cerrno>
 #include <algorithm>
+#include <clocale>
 #include <ctime>
+#include <locale>
 
 #include <idf_parser.h>
 #include <idf_helpers.h>
@@ -39,6 +41,35 @@ using namespace std;
 using namespace IDF3;
 
 
+// IDF implicitly requires the "C" locale; an instance of this class installs it
+// and the destructor reverts to the user's locales
+class IDF_LOCALE
+{
+private:
+    std::string clocale;    // locale of the C library
+    std::locale cxxlocale;  // locale of the streams
+
+public:
+    IDF_LOCALE()
+    {
+        const char *cp = setlocale( LC_ALL, NULL );
+
+        if( NULL != cp )
+            clocale = cp;
+
+        cxxlocale = std::locale::global( std::locale::classic() );
+        setlocale( LC_ALL, "C" );
+    }
+
+    ~IDF_LOCALE()
+    {
+        // note that std::locale::global() may also change the locale of the C library
+        std::locale::global( cxxlocale );
+        setlocale( LC_ALL, clocale.c_str() );
+    }
+};
+
+
 static void GetIDFDate( string& date )
 {
     time_t lt;
@@ -1390,6 +1421,7 @@ IDF3_BOARD::~IDF3_BOARD()
 const std::string& IDF3_BOARD::GetNewRefDes( void )
 {
     ostringstream ostr;
+    ostr.imbue( std::locale::classic() );
     ostr << "NOREFDESn" << iRefDes++;
 
     sRefDes = ostr.str();
@@ -2818,6 +2850,8 @@ void IDF3_BOARD::readLibFile( const std::string& aFileName )
 
 bool IDF3_BOARD::ReadFile( const std::string& aFullFileName, bool aNoSubstituteOutlines )
 {
+    IDF_LOCALE loc;
+
     // 1. Check that the file extension is 'emn'
     // 2. Check if a file with extension 'emp' exists and read it
     // 3. Open the specified filename and read it
@@ -3177,6 +3211,8 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
+    IDF_LOCALE loc;
+
     if( aUnitMM != IDF3::UNIT_THOU )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
-- 
2.43.0


From 4d86679b905b7732ebb88c98ae4541dabff6e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 152/198] fix: writing a model changed the lines of its START
 section

---
 src/iges/iges.cpp       | 63 +++++++++++++++++------------------------
 src/include/core/iges.h |  2 +-
 2 files changed, 27 insertions(+), 38 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 945ff44..b9b6b4d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -760,7 +760,9 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     } while(0);
 
     // START SECTION
-    if( !writeStart( file ) )
+    int nStartLines = 0;
+
+    if( !writeStart( file, nStartLines ) )
     {
         ERRMSG << "\n + [INFO] could not write START section\n";
         file.close();
@@ -801,7 +803,7 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     std::string oline;
     std::string tmp;
 
-    if( !FormatDEInt( tmp, (int)startSection.size() ) )
+    if( !FormatDEInt( tmp, nStartLines ) )
     {
         ERRMSG << "\n + [INFO] could not format S* entry in terminal line\n";
         file.close();
@@ -2044,61 +2046,48 @@ bool IGES::AddToHeader( const char*& comments )
 }
 
 // write out the START SECTION
-bool IGES::writeStart( std::ofstream& file )
+bool IGES::writeStart( std::ofstream& file, int& nLines )
 {
-    if( startSection.empty() )
-        startSection.push_back( "# Created via the free libIGES (https://github.com/cbernardo/libIGES)" );
+    // the lines to be written; the user's lines are not changed
+    std::list<std::string> lines;
 
-    std::list<std::string>::iterator ssc = startSection.begin();
-    std::list<std::string>::iterator esc = startSection.end();
-    std::string tStr;
-    std::string tStr1;
-
-    size_t slen;
-    size_t slen1;
+    std::list<std::string>::const_iterator ssc = startSection.begin();
+    std::list<std::string>::const_iterator esc = startSection.end();
 
     while( ssc != esc )
     {
-        slen = (*ssc).length();
+        size_t i = 0;
 
-        if( slen < 72 )
-        {
-            (*ssc).append( 72 - slen, ' ' );
-        }
-        else if( slen > 72 )
+        do
         {
-            tStr = *ssc;
-
-            for( size_t i = 0; i < slen; i += 72 )
-            {
-                tStr1 = tStr.substr(i, 72);
-                slen1 = tStr1.length();
-
-                if( slen1 < 72 )
-                    tStr1.append( 72 - slen1, ' ' );
-
-                startSection.insert( ssc, tStr1  );
-            }
-
-            ssc = startSection.erase( ssc );
-        }
+            lines.push_back( (*ssc).substr( i, 72 ) );
+            i += 72;
+        } while( i < (*ssc).length() );
 
         ++ssc;
     }
 
-    ssc = startSection.begin();
-    int nsc = 1;
+    if( lines.empty() )
+        lines.push_back( "# Created via the free libIGES (https://github.com/cbernardo/libIGES)" );
+
+    nLines = 0;
+    ssc = lines.begin();
+    esc = lines.end();
+    std::string tStr;
+    std::string tStr1;
 
     while( ssc != esc )
     {
-        if( !FormatDEInt( tStr1, nsc++ ) )
+        if( !FormatDEInt( tStr1, ++nLines ) )
         {
             ERRMSG << "\n + [INFO] could not format START section\n";
             return false;
         }
 
         tStr1[0] = 'S';
-        tStr = *ssc + tStr1 + "\n";
+        tStr = *ssc;
+        tStr.append( 72 - tStr.length(), ' ' );
+        tStr += tStr1 + "\n";
         file << tStr;
 
         if( file.fail() )
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index 94012d0..719a08e 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -109,7 +109,7 @@ private:
     // read the TERMINATE section and verify data
     bool readTS( IGES_RECORD& rec, std::ifstream& file );
     // write out the START SECTION
-    bool writeStart( std::ofstream& file );
+    bool writeStart( std::ofstream& file, int& nLines );
     // write out the GLOBAL SECTION
     bool writeGlobals( std::ofstream& file );
     // scale the lengths which are part of the global data
-- 
2.43.0


From e4b42178a2b9b9f2881aceebaf877e36cf6117ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 153/198] fix: an existing file which could not be opened for
 reading was overwritten without permission

---
 src/iges/iges.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b9b6b4d..198b5aa 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -44,6 +44,7 @@
 #include <iomanip>
 #include <clocale>
 #include <ctime>
+#include <sys/stat.h>
 #include <locale>
 #include <algorithm>
 #include <error_macros.h>
@@ -715,18 +716,26 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     ofstream file;
 
-    file.open( aFileName, ios::out | ios_base::in | ios::binary );
-
-    if( file.is_open() )
+    if( !fOverwrite )
     {
-        if( !fOverwrite )
+        // note: a file which cannot be opened may exist as well
+        struct stat fstatus;
+
+        if( 0 == stat( aFileName, &fstatus ) )
         {
+            for( iEnt = 0; iEnt < nEnt; ++iEnt )
+                entities[iEnt]->unformat();
+
             ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
             cerr << " + filename: '" << aFileName << "'\n";
-            file.close();
             return false;
         }
+    }
+
+    file.open( aFileName, ios::out | ios_base::in | ios::binary );
 
+    if( file.is_open() )
+    {
         // reopen the file and truncate it
         file.close();
         file.open( aFileName, ios::out | ios_base::in | ios::binary | ios::trunc );
-- 
2.43.0


From f4d7eecb2170ff0829438d5da15e3893314123e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 154/198] fix: DLL_IGES::NewAPIEntity created two entities, one
 of them unknown to the caller

---
 src/dllapi/dll_iges.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..1d001db 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,47 +234,47 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
@@ -296,15 +296,15 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
-- 
2.43.0


From 496a634ee76d961331a8056311b414b89c0b6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 155/198] fix: the model kept a dangling entity when
 NewAPIEntity did not support the type

---
 src/dllapi/dll_iges.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 1d001db..7130f6b 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -330,7 +330,7 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From 2ae50e0bf1c9c70e7e60537269a3b3abbab4eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 156/198] fix: DLL_IGES::NewAPIEntity could not create the
 Property entity although the API has it

---
 src/dllapi/dll_iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 7130f6b..86612b4 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -303,6 +303,10 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
         aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
+    case ENT_PROPERTY:
+        aEntityPointer = new DLL_IGES_ENTITY_406( this->m_iges, false );
+        break;
+
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
         aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
-- 
2.43.0


From 00af057ca44343ab4f24c9b323f564b3c57fd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 157/198] fix: DLL_IGES::NewIGESEntity lost the pointer in
 which to return the entity

---
 src/dllapi/dll_iges.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 86612b4..e712836 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -368,7 +368,13 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] invoked with NULL argument\n";
+        return false;
+    }
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From 91419ab5afa0a9abd2e15096de2241bf1a3fd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 158/198] fix: SetProductID_ReceivingSystem( NULL ) crashed

---
 src/dllapi/dll_iges.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index e712836..1f8b3ce 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -649,7 +649,11 @@ bool DLL_IGES::SetProductID_ReceivingSystem( char const* aProductIDRS )
         return false;
     }
 
-    m_iges->globalData.productIDRS = aProductIDRS;
+    if( NULL == aProductIDRS )
+        m_iges->globalData.productIDRS.clear();
+    else
+        m_iges->globalData.productIDRS = aProductIDRS;
+
     return true;
 }
 
-- 
2.43.0


From a21d04c5d79533a9901ff17b94b7252a82f83a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 159/198] fix: AddToHeader( NULL ) and AddComment( NULL ) of
 the API crashed

---
 src/dllapi/dll_iges_entity.cpp | 3 +++
 src/iges/iges.cpp              | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..1d75451 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -274,6 +274,9 @@ bool DLL_IGES_ENTITY::AddComment( const char*& aComment )
 {
     CHECK_VALID_RETURN_FALSE;
 
+    if( NULL == aComment )
+        return false;
+
     return m_entity->AddComment( aComment );
 }
 
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 198b5aa..d4a555a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2021,7 +2021,7 @@ size_t IGES::GetNHeaderLines(void)
 
 bool IGES::AddToHeader( const char*& comments )
 {
-    if( 0 == comments[0] )
+    if( NULL == comments || 0 == comments[0] )
         return true;
 
     vStartSection.clear();
-- 
2.43.0


From 328585435ae2eab4bf9de9e6f5340020a30a553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 160/198] fix: DLL_IGES_ENTITY_122::SetGeneratrixEnd put all
 coordinates into LX

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From c7767a69d9b1eb62990b2f944f0022e2bcbb1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 161/198] fix: DLL_IGES_ENTITY_308::GetDEList took the address
 of the first element of an empty list

---
 src/dllapi/dll_entity308.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3fe6132 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -113,26 +113,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
         return false;
     }
 
-    std::list< IGES_ENTITY* >* pDE = &((IGES_ENTITY_308*)m_entity)->DE;
-    std::vector< IGES_ENTITY* >* pvDE = &((IGES_ENTITY_308*)m_entity)->m_DE;
-
-    if( pDE->size() != pvDE->size() )
-    {
-        pvDE->clear();
-
-        std::list< IGES_ENTITY* >::iterator sDL = pDE->begin();
-        std::list< IGES_ENTITY* >::iterator eDL = pDE->end();
-
-        while( sDL != eDL )
-        {
-            pvDE->push_back( *sDL );
-            ++sDL;
-        }
-    }
-
-    aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
-    return true;
+    return ((IGES_ENTITY_308*)m_entity)->GetDEList( aDESize, aDEList );
 }
 
 
-- 
2.43.0


From 931544761689822fbd06142c1a09d260cc44005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 162/198] fix: AddDE and DelDE of the API crashed when given
 NULL

---
 src/dllapi/dll_entity308.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 3fe6132..4364b06 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -130,6 +130,9 @@ bool DLL_IGES_ENTITY_308::AddDE(DLL_IGES_ENTITY*& aPtr)
     if( !m_valid || NULL == m_entity )
         return false;
 
+    if( NULL == aPtr )
+        return false;
+
     return ((IGES_ENTITY_308*)m_entity)->AddDE( aPtr->GetRawPtr() );
 }
 
@@ -148,6 +151,9 @@ bool DLL_IGES_ENTITY_308::DelDE(DLL_IGES_ENTITY*& aPtr)
     if( !m_valid || NULL == m_entity )
         return false;
 
+    if( NULL == aPtr )
+        return false;
+
     return ((IGES_ENTITY_308*)m_entity)->DelDE( aPtr->GetRawPtr() );
 }
 
-- 
2.43.0


From aaa1271836e4b61dd3a6662ebdb60134dbcd125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 163/198] fix: the name of a Property could be accessed through
 an invalid wrapper

---
 src/dllapi/dll_entity406.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..a630981 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -95,6 +95,9 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     const char *result = NULL;
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
@@ -110,6 +113,9 @@ const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 
 bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     bool result = false;
 
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
-- 
2.43.0


From 38b0561c88ea408809dfb8a7499d9e75ea37fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 164/198] fix: DLL_IGES_ENTITY::DelEntity left a dangling
 pointer in the model which owned the entity

---
 src/dllapi/dll_iges_entity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 1d75451..4366c8c 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+
+        // an entity which belongs to a model must also be removed from it
+        IGES* pp = m_entity->GetParentIGES();
+
+        if( NULL == pp || !pp->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From 01f85d38d596e22e256896cde1015c2544516a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 165/198] fix: m_hasParent was not initialised for a wrapper
 without a model

---
 src/dllapi/dll_iges_entity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 4366c8c..abd0cb7 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -41,6 +41,7 @@
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 {
+    m_hasParent = false;
     m_parent = aParent;
 
     if( NULL != aParent )
@@ -55,6 +56,7 @@ DLL_IGES_ENTITY::DLL_IGES_ENTITY( IGES* aParent )
 
 DLL_IGES_ENTITY::DLL_IGES_ENTITY( DLL_IGES& aParent )
 {
+    m_hasParent = false;
     m_parent = aParent.GetRawPtr();
 
     if( NULL != m_parent )
-- 
2.43.0


From 027ff29cc22fc014152c84c0e9ca545f5ae500b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 166/198] fix: NewSegment and NewOutline destroyed the object
 which they should only detach

---
 src/dllapi/dll_iges_geom_pcb.cpp | 2 +-
 src/dllapi/dll_mcad_outline.cpp  | 2 +-
 src/dllapi/dll_mcad_segment.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..7f55c41 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -55,7 +55,7 @@ DLL_IGES_GEOM_PCB::~DLL_IGES_GEOM_PCB()
 bool DLL_IGES_GEOM_PCB::NewOutline( void )
 {
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_outline.cpp b/src/dllapi/dll_mcad_outline.cpp
index b8001af..01fe2a9 100644
--- a/src/dllapi/dll_mcad_outline.cpp
+++ b/src/dllapi/dll_mcad_outline.cpp
@@ -69,7 +69,7 @@ bool DLL_MCAD_OUTLINE::IsValid( void )
 bool DLL_MCAD_OUTLINE::NewOutline( void )
 {
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_segment.cpp b/src/dllapi/dll_mcad_segment.cpp
index 575d28e..ccb19e2 100644
--- a/src/dllapi/dll_mcad_segment.cpp
+++ b/src/dllapi/dll_mcad_segment.cpp
@@ -68,7 +68,7 @@ bool DLL_MCAD_SEGMENT::IsValid( void )
 bool DLL_MCAD_SEGMENT::NewSegment( void )
 {
     if( m_valid && m_segment )
-        delete m_segment;
+        m_segment->DetachValidFlag( &m_valid );
 
     m_segment = NULL;
     m_valid = false;
-- 
2.43.0


From b1f732c7df6e74b9681a7d054503b6c706995dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 167/198] fix: DLL_IGES_GEOM_PCB::GetSegmentWall refused every
 valid outline

---
 src/dllapi/dll_iges_geom_pcb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 7f55c41..bb40711 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From b517000ba11d8ff48be3677acc5fbeff277fdff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 168/198] fix: DLL_IGES_GEOM_PCB::GetCurveOnPlane worked on an
 outline which no longer exists

---
 src/dllapi/dll_iges_geom_pcb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index bb40711..4b93757 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
-- 
2.43.0


From 9227c5a9acd89bc154888b952c769a5fc341d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 169/198] fix: GetCurves and GetCurveOnPlane of
 DLL_IGES_GEOM_PCB returned uninitialised pointers

---
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 4b93757..9e7d896 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -281,7 +281,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
-- 
2.43.0


From 5600f7a31acc96001b9777daa3b63b1bb79e0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:15 +0000
Subject: [PATCH 170/198] fix: GetOptionalEntities of an invalid wrapper did
 not set the size of the list

---
 src/dllapi/dll_iges_entity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index abd0cb7..fdf3f3e 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -220,6 +220,7 @@ bool DLL_IGES_ENTITY::GetOptionalEntities( size_t& aListSize, IGES_ENTITY**& aEn
 {
     if( !m_valid || NULL == m_entity )
     {
+        aListSize = 0;
         aEntityList = NULL;
         return false;
     }
-- 
2.43.0


From b9db0eb3d1af794a062091cee4a5c583849f31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 171/198] fix: a model without line width gradations was
 exported with a division by zero

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d4a555a..813063b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2602,6 +2602,12 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
+    if( globalData.maxLinewidthGrad < 1 )
+        globalData.maxLinewidthGrad = 1;
+
+    if( maxLWG < 1 )
+        maxLWG = newParent->globalData.maxLinewidthGrad = 1;
+
     double lws = (double)maxLWG / globalData.maxLinewidthGrad;
     int llw;
 
-- 
2.43.0


From ce41fc799df13faef58825445d909004e647f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 172/198] fix: IDF3_BOARD::WriteFile wrote mils when
 millimetres were asked for and the reverse

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 6a15ce0..4d40c40 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3213,7 +3213,7 @@ bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool
 {
     IDF_LOCALE loc;
 
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From ca222767826bcbb836fd986a91b591dfb4094cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 173/198] fix: IDF writer did not quote the reference
 designator, which may contain blanks

---
 src/idf/idf_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 4d40c40..a9857a5 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -826,8 +826,8 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
 
-    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
-    << arefdes << "\n";
+    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" \""
+    << arefdes << "\"\n";
 
     IDF3::IDF_UNIT unit = UNIT_MM;
 
-- 
2.43.0


From d5e84f9ab12e7dfa3853c9b0b961261ab9a472cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 174/198] fix: IDF writer put the side of an OTHER_OUTLINE and
 its first point on one line

---
 src/idf/idf_outlines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 6e0c2a1..c393564 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1904,6 +1904,7 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
             case LYR_TOP:
             case LYR_BOTTOM:
                 WriteLayersText( aBoardFile, side );
+                aBoardFile << "\n";
                 break;
 
             default:
-- 
2.43.0


From 18f5a646311d9610d6381de3f84818413aedbfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:41 +0000
Subject: [PATCH 175/198] fix: IDF writer misplaced the further outlines of
 components on the bottom of the board

---
 src/idf/idf_parser.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index a9857a5..bb864a3 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -802,23 +802,11 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
         throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
     }
 
-    // calculate the final position based on layer
-    double xpos, ypos, ang;
-
-    switch( aSide )
-    {
-        case LYR_TOP:
-            xpos = aXpos + xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle + aoff;
-            break;
-
-        default:
-            xpos = aXpos - xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle - aoff;
-            break;
-    }
+    // calculate the final position; the offsets are those which
+    // readPlaceData() determined, on either side of the board
+    double xpos = aXpos + xoff;
+    double ypos = aYpos + yoff;
+    double ang  = aAngle + aoff;
 
     std::string arefdes = aRefDes;
 
-- 
2.43.0


From 78412db7746582b5ff6e9c27364283b3062828dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:41 +0000
Subject: [PATCH 176/198] fix: IDF writer wrote an empty PLACEMENT section if
 no component has an outline

---
 src/idf/idf_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index bb864a3..6e1f883 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3155,7 +3155,14 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
             while( itcs != itce )
             {
-                if( itcs->second->GetOutlinesSize() > 0 )
+                const std::list< IDF3_COMP_OUTLINE_DATA* >* od = itcs->second->GetOutlinesData();
+                std::list< IDF3_COMP_OUTLINE_DATA* >::const_iterator sod = od->begin();
+
+                // note: nothing is written for data without an outline
+                while( sod != od->end() && NULL == (*sod)->GetOutline() )
+                    ++sod;
+
+                if( sod != od->end() )
                 {
                     itcs = components.begin();
                     hasOutlines = true;
-- 
2.43.0


From fdd1e62fb5b77628e087ce5185a0ad9436ddc482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 177/198] fix: IDF writer left the comments of an unwritten
 PLACEMENT section without a section

---
 src/idf/idf_parser.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 6e1f883..4e04859 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3134,15 +3134,6 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
         // Placement
         if( !components.empty() )
         {
-            std::list<std::string>::iterator itpcs = placeComments.begin();
-            std::list<std::string>::iterator itpce = placeComments.end();
-
-            while( itpcs != itpce )
-            {
-                brd << "# " << *itpcs << "\n";
-                ++itpcs;
-            }
-
             std::map< std::string, IDF3_COMPONENT*>::iterator itcs = components.begin();
             std::map< std::string, IDF3_COMPONENT*>::iterator itce = components.end();
 
@@ -3174,6 +3165,15 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
             if( hasOutlines )
             {
+                std::list<std::string>::iterator itpcs = placeComments.begin();
+                std::list<std::string>::iterator itpce = placeComments.end();
+
+                while( itpcs != itpce )
+                {
+                    brd << "# " << *itpcs << "\n";
+                    ++itpcs;
+                }
+
                 brd << ".PLACEMENT\n";
 
                 while( itcs != itce )
-- 
2.43.0


From 1809fbbd0cf32de5ca6700f0e52bd4f7f66e349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:25 +0000
Subject: [PATCH 178/198] fix: IDF writer wrote the height -1 for a
 PLACE_OUTLINE without a height, which cannot be read again

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index c393564..4c4c915 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2601,7 +2601,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From 8ab2a9970884174d0016d8cc203bbd2e3d3d4ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 179/198] fix: comments behind a record which ends too early
 were read as its parameters

---
 src/iges/iges_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 5a97e0a..c0ac49e 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -233,6 +233,12 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 {
     param.clear();
 
+    if( eor )
+    {
+        ERRMSG << "\n + [BAD DATA] the record ended before the parameter\n";
+        return false;
+    }
+
     if( idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
@@ -327,6 +333,12 @@ bool ParseLString( const std::string& data, int& idx, std::string& param, bool&
     param.clear();
     int tidx = idx;
 
+    if( eor )
+    {
+        ERRMSG << "\n + [BAD DATA] the record ended before the parameter\n";
+        return false;
+    }
+
     if( idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
-- 
2.43.0


From 98051abda15166dd7ee04ada4f390aad86460cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 180/198] fix: even numbers were accepted as pointers to
 directory entries

---
 src/entities/entity108.cpp   |  2 +-
 src/entities/entity120.cpp   |  4 ++--
 src/entities/entity164.cpp   |  2 +-
 src/entities/entity186.cpp   |  4 ++--
 src/entities/entity504.cpp   |  6 +++---
 src/entities/entity508.cpp   |  4 ++--
 src/entities/entity510.cpp   |  4 ++--
 src/entities/entity514.cpp   |  2 +-
 src/entities/iges_entity.cpp | 22 ++++++++++++++--------
 9 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index a4d9ad7..7204fb7 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -105,7 +105,7 @@ bool IGES_ENTITY_108::associate(std::vector<IGES_ENTITY *> *entities)
         int iEnt = (iPtr >> 1);
         int sEnt = (int) entities->size();
 
-        if( iEnt >= sEnt )
+        if( (iPtr & 1) == 0 || iEnt >= sEnt )
         {
             ERRMSG << "\n + [INFO] invalid pointer (DE: ";
             cerr << iPtr << " ) does not exist\n";
diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 4dce9ac..03d6355 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -75,7 +75,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iL >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( iEnt < 0 || (iL & 1) == 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid entity (DE:" << iL << ")\n";
             return false;
@@ -117,7 +117,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = iC >> 1;
 
-        if( iEnt < 0 || iEnt >= (int)(*entities).size() )
+        if( iEnt < 0 || (iC & 1) == 0 || iEnt >= (int)(*entities).size() )
         {
             ERRMSG << "\n + [INFO] invalid entity (DE:" << iC << ")\n";
             return false;
diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index d94729d..e975acd 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -88,7 +88,7 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
     int iEnt = (iPtr >> 1);
     int sEnt = (int)entities->size();
 
-    if( iEnt >= sEnt )
+    if( (iPtr & 1) == 0 || iEnt >= sEnt )
     {
         ERRMSG << "\n + [INFO] invalid pointer (DE: ";
         cerr << iPtr <<" ) does not exist\n";
diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index e571388..d955730 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -91,7 +91,7 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
 
     int iEnt = mDEshell >> 1;
 
-    if( iEnt >= (int)entities->size() )
+    if( (mDEshell & 1) == 0 || iEnt >= (int)entities->size() )
     {
         ERRMSG << "\n + [INFO] invalid DE (" << mDEshell;
         cerr << "), list size is " << entities->size() << "\n";
@@ -142,7 +142,7 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = sV->first >> 1;
 
-        if( iEnt >= (int)entities->size() )
+        if( (sV->first & 1) == 0 || iEnt >= (int)entities->size() )
         {
             ERRMSG << "\n + [INFO] invalid DE for void (" << sV->first;
             cerr << "), list size is " << entities->size() << "\n";
diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index d0bbc44..be10a22 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -117,7 +117,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
     {
         lI = sI->curv >> 1;
 
-        if( 0 > lI || nI <= lI )
+        if( 0 > lI || (sI->curv & 1) == 0 || nI <= lI )
         {
             ERRMSG << "\n + [CORRUPT FILE] curve index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
@@ -129,7 +129,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
 
         lI = sI->svp >> 1;
 
-        if( 0 > lI || nI <= lI )
+        if( 0 > lI || (sI->svp & 1) == 0 || nI <= lI )
         {
             ERRMSG << "\n + [CORRUPT FILE] SVP index exceeds number of entities in DE";
             cerr << sequenceNumber << "\n";
@@ -141,7 +141,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
 
         lI = sI->tvp >> 1;
 
-        if( 0 > lI || nI <= lI )
+        if( 0 > lI || (sI->tvp & 1) == 0 || nI <= lI )
         {
             ERRMSG << "\n + [CORRUPT FILE] TVP index exceeds number of entities in DE";
             cerr << sequenceNumber << "\n";
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 362c6e0..e5bb09c 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -166,7 +166,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         ldata->pcurves.clear();
         lI = sI->data >> 1;
 
-        if( 0 > lI || nI <= lI )
+        if( 0 > lI || (sI->data & 1) == 0 || nI <= lI )
         {
             ERRMSG << "\n + [CORRUPT FILE] edge index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
@@ -183,7 +183,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         {
             lI = sP->second >> 1;
 
-            if( 0 > lI || nI <= lI )
+            if( 0 > lI || (sP->second & 1) == 0 || nI <= lI )
             {
                 ERRMSG << "\n + [CORRUPT FILE] PS curve index exceeds number of entities in DE";
                 cerr << sequenceNumber << "\n";
diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index b3ff0a9..8330813 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -90,7 +90,7 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
 
     int iEnt = mDEsurf >> 1;
 
-    if( iEnt >= (int)entities->size() )
+    if( (mDEsurf & 1) == 0 || iEnt >= (int)entities->size() )
     {
         ERRMSG << "\n + [INFO] invalid DE (" << mDEsurf;
         cerr << "), list size is " << entities->size() << "\n";
@@ -131,7 +131,7 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = (*sL) >> 1;
 
-        if( iEnt >= (int)entities->size() )
+        if( (*sL & 1) == 0 || iEnt >= (int)entities->size() )
         {
             ERRMSG << "\n + [INFO] invalid loop DE (" << (*sL);
             cerr << "), list size is " << entities->size() << "\n";
diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index ddc57dd..2f816aa 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -90,7 +90,7 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
     {
         iEnt = sF->first >> 1;
 
-        if( iEnt >= (int)entities->size() )
+        if( (sF->first & 1) == 0 || iEnt >= (int)entities->size() )
         {
             ERRMSG << "\n + [INFO] invalid DE (" << sF->first;
             cerr << "), list size is " << entities->size() << "\n";
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 036f9ec..8eae296 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1169,6 +1169,12 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
     if( tmpInt > 0 )
         tmpInt = 0;
 
+    if( tmpInt < 0 && (tmpInt & 1) == 0 )
+    {
+        ERRMSG << "\n + invalid Structure value (" << tmpInt << "); must be 0 or a negated DE\n";
+        return false;
+    }
+
     structure = tmpInt;
 
     // DE4: Line Font Pattern (IGES_LINEFONT_PATTERN or negative)
@@ -1178,7 +1184,7 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt >= (int)LINEFONT_END )
+    if( tmpInt >= (int)LINEFONT_END || ( tmpInt < 0 && (tmpInt & 1) == 0 ) )
     {
         ERRMSG << "\n + invalid Line Font Pattern (" << tmpInt << "); must be < " << LINEFONT_END << "\n";
         return false;
@@ -1208,9 +1214,9 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt < 0 )
+    if( tmpInt < 0 || ( tmpInt && (tmpInt & 1) == 0 ) )
     {
-        ERRMSG << "\n + invalid View value (" << tmpInt << "); must be >= 0\n";
+        ERRMSG << "\n + invalid View value (" << tmpInt << "); must be 0 or a DE\n";
         return false;
     }
 
@@ -1223,9 +1229,9 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt < 0 )
+    if( tmpInt < 0 || ( tmpInt && (tmpInt & 1) == 0 ) )
     {
-        ERRMSG << "\n + invalid Transformation Matrix pointer (" << tmpInt << "); must be >= 0\n";
+        ERRMSG << "\n + invalid Transformation Matrix pointer (" << tmpInt << "); must be 0 or a DE\n";
         return false;
     }
 
@@ -1238,9 +1244,9 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt < 0 )
+    if( tmpInt < 0 || ( tmpInt && (tmpInt & 1) == 0 ) )
     {
-        ERRMSG << "\n + invalid Label Display Associativity pointer (" << tmpInt << "); must be >= 0\n";
+        ERRMSG << "\n + invalid Label Display Associativity pointer (" << tmpInt << "); must be 0 or a DE\n";
         return false;
     }
 
@@ -1380,7 +1386,7 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
         return false;
     }
 
-    if( tmpInt >= COLOR_END )
+    if( tmpInt >= COLOR_END || ( tmpInt < 0 && (tmpInt & 1) == 0 ) )
     {
         ERRMSG << "\n + invalid Color Number (" << tmpInt << ")\n";
         return false;
-- 
2.43.0


From 5229e531347618bd5c634d3af7c5a7dd752225b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 181/198] fix: an open component outline was accepted when
 properties follow it

---
 src/idf/idf_outlines.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 4c4c915..0e23868 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -247,6 +247,15 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         {
             if( outlineType == OTLN_COMPONENT && CompareToken( "PROP", entry ) )
             {
+                if( npts > 0 && !closed )
+                {
+                    ostringstream ostr;
+                    ostr << "invalid outline (not closed)\n";
+                    ostr << "* file position: " << pos;
+
+                    throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
+                }
+
                 aBoardFile.seekg( pos );
                 return;
             }
-- 
2.43.0


From e365829d765121810ec6ab60f9b418307be4c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 182/198] fix: decreasing knots were accepted

---
 src/entities/entity126.cpp | 4 ++--
 src/entities/entity128.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 9363664..bdbc315 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -549,9 +549,9 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     for( int i = 0; i < nKnots; ++i )
     {
-        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) || ( i > 0 && tR < knots[i - 1] ) )
         {
-            ERRMSG << "\n + [INFO] couldn't read knot value #" << (i + 1) << "\n";
+            ERRMSG << "\n + [INFO] missing or decreasing knot value #" << (i + 1) << "\n";
             delete [] knots;
             knots = NULL;
             pdout.clear();
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 589fe7d..f0c5109 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -614,9 +614,9 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     for( int i = 0; i < nKnots1; ++i )
     {
-        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) || ( i > 0 && tR < knots1[i - 1] ) )
         {
-            ERRMSG << "\n + [INFO] couldn't read knot1 value #" << (i + 1) << "\n";
+            ERRMSG << "\n + [INFO] missing or decreasing knot1 value #" << (i + 1) << "\n";
             delete [] knots1;
             knots1 = NULL;
             pdout.clear();
@@ -641,9 +641,9 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     for( int i = 0; i < nKnots2; ++i )
     {
-        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, tR, eor, pd, rd ) || ( i > 0 && tR < knots2[i - 1] ) )
         {
-            ERRMSG << "\n + [INFO] couldn't read knot2 value #" << (i + 1) << "\n";
+            ERRMSG << "\n + [INFO] missing or decreasing knot2 value #" << (i + 1) << "\n";
             delete [] knots1;
             knots1 = NULL;
             delete [] knots2;
-- 
2.43.0


From f2112e98686937f0478102e64d31eec091c92124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 183/198] fix: a Loop accepted indices less than 1 into its
 lists

---
 src/entities/entity508.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index e5bb09c..469ffef 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -564,7 +564,7 @@ bool IGES_ENTITY_508::readPD(std::ifstream &aFile, int &aSequenceVar)
             return false;
         }
 
-        if( !ParseInt( pdout, idx, tDI.idx, eor, pd, rd ) )
+        if( !ParseInt( pdout, idx, tDI.idx, eor, pd, rd ) || tDI.idx < 1 )
         {
             ERRMSG << "\n + [INFO] couldn't read index into edge list\n";
             pdout.clear();
-- 
2.43.0


From 945f4fe18a2c45dd80bdf6a1d53a2c6fb37cece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:39 +0000
Subject: [PATCH 184/198] fix: IDF3_BOARD::Clear kept the board outline and its
 comments

---
 src/idf/idf_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 4e04859..f7dcfef 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4310,6 +4310,9 @@ void IDF3_BOARD::Clear( void )
     } while(0);
 
     boardName.clear();
+
+    // the board outline and its comments
+    olnBoard.clear();
     olnBoard.setThickness( thickness );
 
     state     = FILE_START;
-- 
2.43.0


From 275512093c452c838e9a952863cb39f6c3861570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 185/198] fix: BOARD_OUTLINE::ClearOutlines was declared but
 not defined

---
 src/idf/idf_outlines.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 0e23868..42d849d 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1503,6 +1503,17 @@ void BOARD_OUTLINE::clearOutlines( void )
     return;
 }
 
+void BOARD_OUTLINE::ClearOutlines( void )
+{
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return;
+#endif
+
+    clearOutlines();
+    return;
+}
+
 void BOARD_OUTLINE::AddComment( const std::string& aComment )
 {
     if( aComment.empty() )
-- 
2.43.0


From af80c07e5770b87a05be3bb79abe66e1ffa9dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 186/198] fix: BOARD_OUTLINE::DelOutline ignored the ownership
 rules

---
 src/idf/idf_outlines.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 42d849d..3fd43db 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1329,6 +1329,11 @@ bool BOARD_OUTLINE::AddOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
     std::list< IDF_OUTLINE* >::iterator itE = outlines.end();
 
@@ -1387,6 +1392,11 @@ bool BOARD_OUTLINE::DelOutline( IDF_OUTLINE* aOutline )
 
 bool BOARD_OUTLINE::DelOutline( size_t aIndex )
 {
+#ifndef DISABLE_IDF_OWNERSHIP
+    if( !CheckOwnership( __LINE__, __FUNCTION__, parent, owner, outlineType, errormsg ) )
+        return false;
+#endif
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
 
     if( outlines.empty() )
-- 
2.43.0


From 4171e5931d6418a1d9fe176acd6bd4642faf61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 187/198] fix: BOARD_OUTLINE::AddOutline accepted a NULL
 pointer

---
 src/idf/idf_outlines.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 3fd43db..5a7f094 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1290,6 +1290,17 @@ IDF3_BOARD* BOARD_OUTLINE::GetParent( void )
 
 bool BOARD_OUTLINE::addOutline( IDF_OUTLINE* aOutline )
 {
+    if( !aOutline )
+    {
+        ostringstream ostr;
+        ostr << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << "():\n";
+        ostr << "* BUG: NULL aOutline pointer\n";
+        ostr << "* outline type: " << GetOutlineTypeString( outlineType );
+        errormsg = ostr.str();
+
+        return false;
+    }
+
     std::list< IDF_OUTLINE* >::iterator itS = outlines.begin();
     std::list< IDF_OUTLINE* >::iterator itE = outlines.end();
 
-- 
2.43.0


From f335f782798e83bb4ef5dda592bc6472dde8182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 188/198] fix: a thickness of NaN was accepted for a board

---
 src/idf/idf_outlines.cpp | 3 ++-
 src/idf/idf_parser.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 5a7f094..56973a1 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1012,7 +1012,8 @@ IDF3::IDF_UNIT BOARD_OUTLINE::GetUnit( void ) const
 
 bool BOARD_OUTLINE::setThickness( double aThickness )
 {
-    if( aThickness < 0.0 )
+    // note: NaN must be rejected as well
+    if( !(aThickness >= 0.0) )
     {
         ostringstream ostr;
         ostr << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << "():\n";
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index f7dcfef..a20c2cc 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1630,7 +1630,8 @@ IDF3::IDF_UNIT IDF3_BOARD::GetUnit( void )
 
 bool IDF3_BOARD::SetBoardThickness( double aBoardThickness )
 {
-    if( aBoardThickness <= 0.0 )
+    // note: NaN must be rejected as well
+    if( !(aBoardThickness > 0.0) )
     {
         ostringstream ostr;
         ostr << __FILE__ << ":" << __LINE__ << ":" << __FUNCTION__ << "(): ";
-- 
2.43.0


From b38604e9fc31475338c45409fd6361fc73e2741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 189/198] fix: IDF3_BOARD::DelComponent deleted another
 component of the same RefDes

---
 src/idf/idf_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index a20c2cc..e649983 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3815,7 +3815,8 @@ bool IDF3_BOARD::DelComponent( IDF3_COMPONENT* aComponent )
     std::map<std::string, IDF3_COMPONENT*>::iterator it =
         components.find( aComponent->GetRefDes() );
 
-    if( it == components.end() )
+    // note: another component may have the same RefDes
+    if( it == components.end() || it->second != aComponent )
         return false;
 
     delete it->second;
-- 
2.43.0


From 1bcbe52a1f7f5e0c72bccb35670b3a79f589e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 190/198] fix: IDF3_COMP_OUTLINE_DATA: an outline given with
 offsets was not counted as used

---
 src/idf/idf_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index e649983..7cf4f63 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -177,6 +177,10 @@ IDF3_COMP_OUTLINE_DATA::IDF3_COMP_OUTLINE_DATA( IDF3_COMPONENT* aParent,
     yoff = aYoff;
     zoff = aZoff;
     aoff = aAngleOff;
+
+    if( aOutline )
+        aOutline->incrementRef();
+
     return;
 }
 
-- 
2.43.0


From 38602299b72d1cc4e0fbc6ef9f5be32a83473053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 191/198] fix: IDF3_COMP_OUTLINE::Clear reset the number of its
 users

---
 src/idf/idf_outlines.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 56973a1..987c29e 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3482,9 +3482,10 @@ bool IDF3_COMP_OUTLINE::Clear( void )
     geometry.clear();
     part.clear();
     compType = COMP_INVALID;
-    refNum = 0;
     props.clear();
 
+    // note: the components which refer to this outline continue to do so
+
     return true;
 }
 
-- 
2.43.0


From 3b8cffb2fdae8d7cf1aba924cce44c373af285f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:05 +0000
Subject: [PATCH 192/198] fix: IDF3::GetOutline accessed the first item of an
 empty list

---
 src/idf/idf_common.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 41e03b7..3032342 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -889,6 +889,9 @@ void IDF3::GetOutline( std::list<IDF_SEGMENT*>& aLines,
 {
     aOutline.Clear();
 
+    if( aLines.empty() )
+        return;
+
     // NOTE: To tell if the point order is CCW or CW,
     // sum all:  (endPoint.X[n] - startPoint.X[n])*(endPoint[n] + startPoint.Y[n])
     // If the result is >0, the direction is CW, otherwise
-- 
2.43.0


From 720e84011fe5bac6c677709d7d463ddb58e96be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 193/198] fix: the default outline of a component started with
 a segment without length

---
 src/idf/idf_outlines.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 987c29e..e05f877 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3617,7 +3617,10 @@ bool IDF3_COMP_OUTLINE::CreateDefaultOutline( const std::string &aGeom, const st
     if( ol == NULL )
         return false;
 
-    for( int i = 0; i < 10; ++i )
+    // the first point is on the inner circle
+    a += da;
+
+    for( int i = 1; i < 10; ++i )
     {
         if( i & 1 )
         {
-- 
2.43.0


From 813137d1f1da550cdae80c2f1360571bef812b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:10 +0000
Subject: [PATCH 194/198] fix: NURBS data with decreasing knots, weights which
 are not positive or parameters which are no numbers were accepted, but could
 not be read again

---
 src/entities/entity126.cpp | 23 +++++++++++++++++++++--
 src/entities/entity128.cpp | 29 +++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index bdbc315..00f07f7 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1043,14 +1043,33 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
 
     int lastKnot = nCoeff + order - 1;
 
+    // a file with decreasing knots or with weights which are not positive cannot be read
+    for( int i = 0; i < lastKnot; ++i )
+    {
+        if( !( knot[i] <= knot[i + 1] ) )
+        {
+            ERRMSG << "\n + [INFO] knot values may not decrease\n";
+            return false;
+        }
+    }
+
+    for( int i = 0; isRational && i < nCoeff; ++i )
+    {
+        if( !( coeff[i * 4 + 3] > 0.0 ) )
+        {
+            ERRMSG << "\n + [INFO] weights must be positive\n";
+            return false;
+        }
+    }
+
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[lastKnot] )
+    if( !( v0 >= knot[0] && v0 < knot[lastKnot] ) )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[lastKnot] )
+    if( !( v1 > v0 && v1 <= knot[lastKnot] ) )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index f0c5109..a315d23 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -988,26 +988,47 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     int lastKnot1 = nCoeff1 + order1 - 1;
     int lastKnot2 = nCoeff2 + order2 - 1;
 
+    // a file with decreasing knots or with weights which are not positive cannot be read
+    for( int i = 0; i < lastKnot1 + lastKnot2; ++i )
+    {
+        const double* k = i < lastKnot1 ? &knot1[i] : &knot2[i - lastKnot1];
+
+        if( !( k[0] <= k[1] ) )
+        {
+            ERRMSG << "\n + [INFO] knot values may not decrease\n";
+            return false;
+        }
+    }
+
+    for( int i = 0; isRational && i < nCoeff1 * nCoeff2; ++i )
+    {
+        if( !( coeff[i * 4 + 3] > 0.0 ) )
+        {
+            ERRMSG << "\n + [INFO] weights must be positive\n";
+            return false;
+        }
+    }
+
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[lastKnot1] )
+    if( !( u0 >= knot1[0] && u0 < knot1[lastKnot1] ) )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[lastKnot1] )
+    if( !( u1 > u0 && u1 <= knot1[lastKnot1] ) )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[lastKnot2] )
+    if( !( v0 >= knot2[0] && v0 < knot2[lastKnot2] ) )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[lastKnot2] )
+    if( !( v1 > v0 && v1 <= knot2[lastKnot2] ) )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
-- 
2.43.0


From fa8b6cb4a550cdda322e0bb2448a5b6bfeda0d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 195/198] fix: GetBaseName of a path without an extension threw
 std::out_of_range

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From ecdfd4b8ab05f2db2088b3a9866e3a3b402c4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 196/198] fix: SetExtension kept an extension asked for before
 and lost the dot of one given with it

---
 src/iges/mcad_utils.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 83be48b..e270ce5 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,28 +358,27 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
-    if( m_ext->empty() && NULL != GetExtension() )
+    if( NULL != anExt && '.' == anExt[0] )
+    {
+        // a single '.' is no extension
+        if( 0 == anExt[1] )
+            return false;
+
+        ++anExt;
+    }
+
+    if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
+    m_basename->clear();
     m_ext->clear();
 
     if( NULL == anExt || 0 == anExt[0] )
         return true;
 
-    if( '.' != anExt[0] )
-    {
-        m_fullpath->append( 1, '.' );
-        *m_ext = anExt;
-    }
-    else
-    {
-        if( 0 == anExt[1] )
-            return false;
-
-        *m_ext = &anExt[1];
-    }
-
+    *m_ext = anExt;
+    m_fullpath->append( 1, '.' );
     m_fullpath->append( *m_ext );
     return true;
 }
-- 
2.43.0


From 0e2971878cc8c5237aa27b961bdb303b6786c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 197/198] fix: MCAD_FILEPATH::Append reported failure always
 and made a relative path absolute

---
 src/iges/mcad_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index e270ce5..f8d3971 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -402,11 +402,14 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         if( subp.size() == 1 && subp[0] == pathsep )
             return true;
 
-        m_fullpath->append( 1, pathsep );
+        if( !m_fullpath->empty() )
+            m_fullpath->append( 1, pathsep );
+
         m_fullpath->append( subp );
         m_filename->clear();
         m_basename->clear();
         m_ext->clear();
+        return true;
     }
 
     return false;
-- 
2.43.0


From e6e010a4a4b08594db8eaf81a351363ebfbffc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 198/198] fix: DirExists and FileExists took sockets and
 devices for directories and files

---
 src/iges/mcad_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index f8d3971..d13d778 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -212,7 +212,7 @@ bool MCAD_FILEPATH::DirExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFDIR )
+    if( S_ISDIR( fs.st_mode ) )
         return true;
 #endif
 
@@ -239,7 +239,7 @@ bool MCAD_FILEPATH::FileExists( void )
     if( 0 != stat( m_fullpath->c_str(), &fs ) )
         return false;
 
-    if( fs.st_mode & S_IFREG )
+    if( S_ISREG( fs.st_mode ) )
         return true;
 #endif
 
-- 
2.43.0

