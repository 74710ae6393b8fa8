From 849e03e86c2f472ac562a34b1c53060153f1b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 01/71] fix: error queue overflow dropped the second newest
 error instead of the oldest

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From f734ff1128acc8ff1f86b823c51be8ddeeafa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 02/71] fix: ilCopyPixels read outside the image and misplaced
 clipped or multi-slice blocks

---
 DevIL/src-IL/src/il_manip.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..5d9c236 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -393,7 +393,7 @@ ILboolean ilCopyPixels1D(ILuint XOff, ILuint Width, void *Data)
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width) {
+	if (Width > iCurImage->Width - XOff) {
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	}
 	else {
@@ -430,12 +430,12 @@ ILboolean ilCopyPixels2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height,
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (Width > iCurImage->Width - XOff)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (Height > iCurImage->Height - YOff)
 		NewHeight = iCurImage->Height - YOff;
 	else
 		NewHeight = Height;
@@ -475,23 +475,23 @@ ILboolean ilCopyPixels3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, IL
 
 	PixBpp = iCurImage->Bpp * iCurImage->Bpc;
 
-	if (iCurImage->Width < XOff + Width)
+	if (Width > iCurImage->Width - XOff)
 		NewBps = (iCurImage->Width - XOff) * PixBpp;
 	else
 		NewBps = Width * PixBpp;
 
-	if (iCurImage->Height < YOff + Height)
+	if (Height > iCurImage->Height - YOff)
 		NewH = iCurImage->Height - YOff;
 	else
 		NewH = Height;
 
-	if (iCurImage->Depth < ZOff + Depth)
+	if (Depth > iCurImage->Depth - ZOff)
 		NewD = iCurImage->Depth - ZOff;
 	else
 		NewD = Depth;
 
 	DataBps = Width * PixBpp;
-	NewSizePlane = NewBps * NewH;
+	NewSizePlane = DataBps * Height;
 
 	NewXOff = XOff * PixBpp;
 
@@ -532,6 +532,11 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		ilSetError(IL_INVALID_PARAM);
 		return 0;
 	}
+	// The block has to start inside the image.
+	if (XOff >= iCurImage->Width || YOff >= iCurImage->Height || ZOff >= iCurImage->Depth) {
+		ilSetError(IL_INVALID_PARAM);
+		return 0;
+	}
 	SrcSize = Width * Height * Depth * iCurImage->Bpp * iCurImage->Bpc;
 
 	if (Format == iCurImage->Format && Type == iCurImage->Type) {
@@ -544,12 +549,12 @@ ILuint ILAPIENTRY ilCopyPixels(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Wid
 		}
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels1D(XOff, Width, TempBuff)) {
 			goto failed;
 		}
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		if (!ilCopyPixels2D(XOff, YOff, Width, Height, TempBuff)) {
 			goto failed;
 		}
-- 
2.43.0


From bf8d080f09314496f3a7352f161a1079edc3dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 03/71] fix: ilSetPixels dropped or misplaced pixels of blocks
 with negative offsets

---
 DevIL/src-IL/src/il_manip.cpp | 60 ++++++++++++-----------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 5d9c236..ac70e9d 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -589,6 +589,18 @@ failed:
 }
 
 
+// Length of the part of a block of Size samples, Skip of which lie before the
+//  image, that is inside an image of ImageSize samples when it starts at Off.
+static ILint iClipBlock(ILint Off, ILuint Skip, ILuint Size, ILuint ImageSize)
+{
+	if (Skip >= Size || (ILuint)Off >= ImageSize)
+		return 0;
+	if (Size - Skip > ImageSize - Off)
+		return ImageSize - Off;
+	return Size - Skip;
+}
+
+
 ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 {
 	ILuint	c, SkipX = 0, PixBpp;
@@ -610,14 +622,7 @@ ILboolean ilSetPixels1D(ILint XOff, ILuint Width, void *Data)
 		XOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width) {
-		NewWidth = iCurImage->Width - XOff;
-	}
-	else {
-		NewWidth = Width;
-	}
-
-	NewWidth -= SkipX;
+	NewWidth = iClipBlock(XOff, SkipX, Width, iCurImage->Width);
 
 	for (x = 0; x < NewWidth; x++) {
 		for (c = 0; c < PixBpp; c++) {
@@ -659,19 +664,9 @@ ILboolean ilSetPixels2D(ILint XOff, ILint YOff, ILuint Width, ILuint Height, voi
 		YOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewWidth = iCurImage->Width - XOff;
-	else
-		NewWidth = Width;
+	NewWidth = iClipBlock(XOff, SkipX, Width, iCurImage->Width);
 	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewHeight = iCurImage->Height - YOff;
-	else
-		NewHeight = Height;
-
-	NewWidth -= SkipX;
-	NewHeight -= SkipY;
+	NewHeight = iClipBlock(YOff, SkipY, Height, iCurImage->Height);
 
 	for (y = 0; y < NewHeight; y++) {
 		for (x = 0; x < NewWidth; x++) {
@@ -720,27 +715,12 @@ ILboolean ilSetPixels3D(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, ILuint
 		ZOff = 0;
 	}
 
-	if (iCurImage->Width < XOff + Width)
-		NewW = iCurImage->Width - XOff;
-	else
-		NewW = Width;
+	NewW = iClipBlock(XOff, SkipX, Width, iCurImage->Width);
 	NewBps = Width * PixBpp;
-
-	if (iCurImage->Height < YOff + Height)
-		NewH = iCurImage->Height - YOff;
-	else
-		NewH = Height;
-
-	if (iCurImage->Depth < ZOff + Depth)
-		NewD = iCurImage->Depth - ZOff;
-	else
-		NewD = Depth;
+	NewH = iClipBlock(YOff, SkipY, Height, iCurImage->Height);
+	NewD = iClipBlock(ZOff, SkipZ, Depth, iCurImage->Depth);
 	NewSizePlane = NewBps * Height;
 
-	NewW -= SkipX;
-	NewH -= SkipY;
-	NewD -= SkipZ;
-
 	for (z = 0; z < NewD; z++) {
 		for (y = 0; y < NewH; y++) {
 			for (x = 0; x < NewW; x++) {
@@ -783,10 +763,10 @@ void ILAPIENTRY ilSetPixels(ILint XOff, ILint YOff, ILint ZOff, ILuint Width, IL
 			return;
 	}
 
-	if (YOff + Height <= 1) {
+	if (YOff == 0 && Height == 1 && ZOff == 0 && Depth == 1) {
 		ilSetPixels1D(XOff, Width, Converted);
 	}
-	else if (ZOff + Depth <= 1) {
+	else if (ZOff == 0 && Depth == 1) {
 		ilSetPixels2D(XOff, YOff, Width, Height, Converted);
 	}
 	else {
-- 
2.43.0


From af2196f27d5834276c84d2e2aa35b3455143c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 04/71] fix: iSwapDouble lost half of the bytes of the value it
 swapped

---
 DevIL/src-IL/src/il_endian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_endian.cpp b/DevIL/src-IL/src/il_endian.cpp
index 60a42f1..4673885 100644
--- a/DevIL/src-IL/src/il_endian.cpp
+++ b/DevIL/src-IL/src/il_endian.cpp
@@ -74,7 +74,7 @@ void iSwapDouble(ILdouble *d) {
 		: "r"  (t[0]), "r"  (t[1]));
 	#else
 	ILubyte t,*b = (ILubyte*)d;
-	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=b[x];
+	#define dswap(x,y) t=b[x];b[x]=b[y];b[y]=t;
 	dswap(0,7);
 	dswap(1,6);
 	dswap(2,5);
-- 
2.43.0


From 52a782f113491de50852d2a18743dbd472ecba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 05/71] fix: reading a byte at the end of a lump moved the
 position back

---
 DevIL/src-IL/src/il_files.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..44467ee 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -449,7 +449,6 @@ ILint ILAPIENTRY iGetcLump(void)
 	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
 	if (ReadLumpSize > 0) {
 		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
 			ilSetError(IL_FILE_READ_ERROR);
 			return IL_EOF;
 		}
-- 
2.43.0


From e958336e4110d1e53695375756d70c236fee631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 06/71] fix: seeking in a lump accepted positions before its
 start

---
 DevIL/src-IL/src/il_files.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 44467ee..e87fbd1 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -614,13 +614,13 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
+			if (Offset < 0 || (ILuint)Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (ReadLumpPos + Offset > ReadLumpSize)
+			if (Offset < 0 ? 0 - (ILuint)Offset > ReadLumpPos : (ILuint)Offset > ReadLumpSize - ReadLumpPos)
 				return 1;
 			ReadLumpPos += Offset;
 			break;
@@ -629,7 +629,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > ReadLumpSize)  // If ReadLumpSize == 0, too bad
 				return 1;
 			ReadLumpPos = ReadLumpSize + Offset;
 			break;
@@ -732,13 +732,13 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
+			if (Offset < 0 || (ILuint)Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos = Offset;
 			break;
 
 		case IL_SEEK_CUR:
-			if (WriteLumpPos + Offset > WriteLumpSize)
+			if (Offset < 0 ? 0 - (ILuint)Offset > WriteLumpPos : (ILuint)Offset > WriteLumpSize - WriteLumpPos)
 				return 1;
 			WriteLumpPos += Offset;
 			break;
@@ -747,7 +747,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > WriteLumpSize)  // If WriteLumpSize == 0, too bad
 				return 1;
 			WriteLumpPos = WriteLumpSize + Offset;
 			break;
-- 
2.43.0


From 526a91ce0792b0b604987c630899e6b3c8640bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 07/71] fix: ilFloatToHalf dropped the sign of values that
 round to zero

---
 DevIL/src-IL/src/il_manip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index ac70e9d..97ad14c 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -54,10 +54,10 @@ ILushort ILAPIENTRY ilFloatToHalf(ILuint i) {
 			// less than HALF_MIN (f may be a small normalized
 			// float, a denormalized float or a zero).
 			//
-			// We convert f to a half zero.
+			// We convert f to a half zero with the same sign.
 			//
 
-			return 0;
+			return s;
 		}
 
 		//
-- 
2.43.0


From 19641b29904ce2a9e75e5d01772d84ba1864267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 08/71] fix: IL_PALETTE_BASE_TYPE was reported as IL_BGRA for
 every palette type

---
 DevIL/src-IL/src/il_states.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..f72b5eb 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -650,21 +650,7 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
                   *Param = Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType);
              break;
         case IL_PALETTE_BASE_TYPE:
-             switch (Image->Pal.PalType)
-             {
-                  case IL_PAL_RGB24:
-                      *Param = IL_RGB;
-                  case IL_PAL_RGB32:
-                      *Param = IL_RGBA; // Not sure
-                  case IL_PAL_RGBA32:
-                      *Param = IL_RGBA;
-                  case IL_PAL_BGR24:
-                      *Param = IL_BGR;
-                  case IL_PAL_BGR32:
-                      *Param = IL_BGRA; // Not sure
-                  case IL_PAL_BGRA32:
-                      *Param = IL_BGRA;
-             }
+             *Param = ilGetPalBaseType(Image->Pal.PalType);
              break;
         default:
              ilSetError(IL_INVALID_ENUM);
-- 
2.43.0


From ed208c31866fa0d979711367d451b5e66d5117cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 09/71] fix: ilSetInteger accepted any value for the DXTC
 format, PCD picture number and PNG alpha index

---
 DevIL/src-IL/src/il_states.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index f72b5eb..e1e5315 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1087,7 +1087,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1111,13 +1111,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From ec66a77cd4cfbd92fc760824c8ee26887d2d630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 10/71] fix: setting the cube map flags of an image also
 recorded an error

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index e1e5315..c34fc44 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1077,7 +1077,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
-- 
2.43.0


From 9fbf3c8abadb9ebf82394b48ff0f7e91298eef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 11/71] fix: the active face number could not be queried

---
 DevIL/src-IL/src/il_states.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index c34fc44..46b6c13 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -464,6 +464,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
-- 
2.43.0


From 8596a049fc536f9bba7710e83feb01fb7ad0bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 12/71] fix: iClipString read past the end of short strings and
 wrote past the end of the copy of long ones

---
 DevIL/src-IL/src/il_states.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 46b6c13..c061298 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -158,13 +158,15 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 
 	Length = ilCharStrLen(String);  //ilStrLen(String);
+	if (Length > MaxLen)
+		Length = MaxLen;
 
 	Clipped = (char*)ialloc((MaxLen + 1) * sizeof(char) /*sizeof(ILchar)*/);  // Terminating NULL makes it +1.
 	if (Clipped == NULL) {
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
-- 
2.43.0


From 9c6b8fd0b65d473ede93b46903c141201a12b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 13/71] fix: pushing the format-specific states crashed when
 one of the strings was not set

---
 DevIL/src-IL/src/il_states.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index c061298..dc5bd88 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -752,6 +752,13 @@ ILboolean ILAPIENTRY ilCompressFunc(ILenum Mode)
 }
 
 
+// Returns a copy of String, which may be NULL when it was never set.
+static char *iCopyString(const char *String)
+{
+	return String ? strdup(String) : NULL;
+}
+
+
 //! Pushes the states indicated by Bits onto the state stack
 void ILAPIENTRY ilPushAttrib(ILuint Bits)
 {
@@ -833,20 +840,20 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		if (ilStates[ilCurrentPos].ilCHeader)
 			ifree(ilStates[ilCurrentPos].ilCHeader);
 
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
+		ilStates[ilCurrentPos].ilTgaId = iCopyString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iCopyString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iCopyString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iCopyString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iCopyString(ilStates[ilCurrentPos-1].ilPngDescription);
 
 		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilTifDescription = iCopyString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iCopyString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iCopyString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iCopyString(ilStates[ilCurrentPos-1].ilTifAuthName);
 
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilCHeader = iCopyString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
-- 
2.43.0


From 02ba23a5e65ef0325d9b865b10daaf0776678a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 14/71] fix: pushing states reset the hints for good and forgot
 the VTF compression and progressive JPEG settings

---
 DevIL/src-IL/src/il_states.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index dc5bd88..9294f30 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -762,6 +762,8 @@ static char *iCopyString(const char *String)
 //! Pushes the states indicated by Bits onto the state stack
 void ILAPIENTRY ilPushAttrib(ILuint Bits)
 {
+	IL_HINTS Hints;
+
 	// Should we check here to see if ilCurrentPos is negative?
 
 	if (ilCurrentPos >= IL_ATTRIB_STACK_MAX - 1) {
@@ -774,7 +776,10 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 
 	//	memcpy(&ilStates[ilCurrentPos], &ilStates[ilCurrentPos - 1], sizeof(IL_STATES));
 
+	// The hints are not part of the stack.
+	Hints = ilHints;
 	ilDefaultStates();
+	ilHints = Hints;
 
 	if (Bits & IL_ORIGIN_BIT) {
 		ilStates[ilCurrentPos].ilOriginMode = ilStates[ilCurrentPos-1].ilOriginMode;
@@ -808,7 +813,9 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilBmpRle = ilStates[ilCurrentPos-1].ilBmpRle;
 		ilStates[ilCurrentPos].ilSgiRle = ilStates[ilCurrentPos-1].ilSgiRle;
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
-- 
2.43.0


From 50789c1c086a12bd591ed2a922e5bba7a7536c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 15/71] fix: the 3Dc, RXGB and ATI1N formats the DDS writer
 supports must stay selectable

---
 DevIL/src-IL/src/il_states.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 9294f30..33d185f 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -1104,7 +1104,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || (Param >= IL_3DC && Param <= IL_DXT1A)) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
-- 
2.43.0


From 51a717f190debf4115d6a58abab60ccddeccf69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 16/71] fix: converting BGR or BGRA to luminance with alpha
 swapped the weights of red and blue

---
 DevIL/src-IL/src/il_convbuff.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..b3eb3e2 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1004,7 +1004,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								NewData[i*2] = (ILubyte)Resultf;
 								NewData[i*2+1] = UCHAR_MAX;
@@ -1016,7 +1016,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i*2] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i*2+1] = USHRT_MAX;
@@ -1027,7 +1027,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
@@ -1037,7 +1037,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultf = 0;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultf += ((ILfloat*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i*2] = Resultf;
 								((ILfloat*)(NewData))[i*2+1] = 1.0f;
@@ -1047,7 +1047,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i++) {
 								Resultd = 0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i*2] = Resultd;
 								((ILdouble*)(NewData))[i*2+1] = 1.0;
@@ -1308,7 +1308,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILubyte*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								NewData[i] = (ILubyte)Resultf;
 								NewData[i+1] = ((ILubyte*)(Data))[i * 2 + 3];
@@ -1320,7 +1320,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultf = 0.0f;
 								for (c = 0; c < 3; c++) {
-									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultf += ((ILushort*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILushort*)(NewData))[i] = (ILushort)Resultf;
 								((ILushort*)(NewData))[i+1] = ((ILushort*)(Data))[i * 2 + 3];
@@ -1331,7 +1331,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILuint*)(NewData))[i] = (ILuint)Resultd;
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
@@ -1341,7 +1341,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILfloat*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILfloat*)(NewData))[i] = (ILfloat)Resultd;
 								((ILfloat*)(NewData))[i+1] = ((ILfloat*)(Data))[i * 2 + 3];
@@ -1351,7 +1351,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 							for (i = 0; i < Size; i += 2) {
 								Resultd = 0.0;
 								for (c = 0; c < 3; c++) {
-									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[c];
+									Resultd += ((ILdouble*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
 								((ILdouble*)(NewData))[i] = Resultd;
 								((ILdouble*)(NewData))[i+1] = ((ILdouble*)(Data))[i * 2 + 3];
-- 
2.43.0


From 8a55ea470e12f711afac1047b0c121505edf299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 17/71] fix: the luminance of white was black for 32-bit
 integer samples

---
 DevIL/src-IL/src/il_convbuff.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index b3eb3e2..5e06661 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -32,6 +32,9 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat);
 							return IL_FALSE; \
 						}
 
+// The weighted sum of full-scale 32-bit samples can round up to 2^32.
+#define LUM_UINT(x) ((x) >= 4294967295.0 ? UINT_MAX : (ILuint)(x))
+
 ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILenum DestFormat, ILenum SrcType, ILenum DestType, ILpal *SrcPal, void *Buffer)
 {
 	//static const	ILfloat LumFactor[3] = { 0.299f, 0.587f, 0.114f };  // Used for conversion to luminance
@@ -324,7 +327,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultf);
 							}
 							break;
 						case IL_FLOAT:
@@ -384,7 +387,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = LUM_UINT(Resultf);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -628,7 +631,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -688,7 +691,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
@@ -969,7 +972,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 3 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1029,7 +1032,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultf += ((ILuint*)(Data))[i * 3 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i*2] = (ILuint)Resultf;
+								((ILuint*)(NewData))[i*2] = LUM_UINT(Resultf);
 								((ILuint*)(NewData))[i*2+1] = UINT_MAX;
 							}
 							break;
@@ -1273,7 +1276,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++, j--) {
 									Resultd += ((ILuint*)(Data))[i * 4 + c] * LumFactor[j];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultd);
 							}
 							break;
 						case IL_FLOAT:
@@ -1333,7 +1336,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 								for (c = 0; c < 3; c++) {
 									Resultd += ((ILuint*)(Data))[i * 2 + c] * LumFactor[2 - c];
 								}
-								((ILuint*)(NewData))[i] = (ILuint)Resultd;
+								((ILuint*)(NewData))[i] = LUM_UINT(Resultd);
 								((ILuint*)(NewData))[i+1] = ((ILuint*)(Data))[i * 2 + 3];
 							}
 							break;
-- 
2.43.0


From 6820ded4a8605679834f153e696b5570b2c6cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 18/71] fix: converting RGB to alpha cleared three times the
 size of the new buffer

---
 DevIL/src-IL/src/il_convbuff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 5e06661..77f7df1 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -417,7 +417,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 				case IL_ALPHA:
 					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 3);
 					CHECK_ALLOC();
-					memset(NewData, 0, NumPix * BpcDest);
+					memset(NewData, 0, NumPix * BpcDest / 3);
 					break;
 
 				default:
-- 
2.43.0


From 49ec7e6bf5e836af4b929e6c0228b92324e7761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 19/71] fix: converting luminance with alpha to alpha took the
 alpha of the next pixel and read past the end

---
 DevIL/src-IL/src/il_convbuff.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 77f7df1..56052f7 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1747,30 +1747,30 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 						case IL_UNSIGNED_BYTE:
 						case IL_BYTE:
 							for (i = 0; i < Size; i++) {
-								NewData[i] = ((ILubyte*)(Data))[i * 2 + 3];
+								NewData[i] = ((ILubyte*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_SHORT:
 						case IL_SHORT:
 						case IL_HALF:
 							for (i = 0; i < Size; i++) {
-								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 3];
+								((ILushort*)(NewData))[i] = ((ILushort*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_UNSIGNED_INT:
 						case IL_INT:
 							for (i = 0; i < Size; i++) {
-								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 3];
+								((ILuint*)(NewData))[i] = ((ILuint*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_FLOAT:
 							for (i = 0; i < Size; i++) {
-								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 3];
+								((ILfloat*)(NewData))[i] = ((ILfloat*)(Data))[i * 2 + 1];
 							}
 							break;
 						case IL_DOUBLE:
 							for (i = 0; i < Size; i++) {
-								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 3];
+								((ILdouble*)(NewData))[i] = ((ILdouble*)(Data))[i * 2 + 1];
 							}
 							break;
 					}
-- 
2.43.0


From 1b62f51f6c8dbe6374b020c03daff660131c3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 20/71] fix: full scale float and half samples became zero when
 converted to 32-bit integers

---
 DevIL/src-IL/src/il_convbuff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 56052f7..d5cfcb3 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -2126,7 +2126,7 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 					for (i = 0; i < Size; i++) {
 						#if CLAMP_FLOATS
 							tempFloat = IL_CLAMP(((ILfloat*)Buffer)[i]);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)(tempFloat * (ILdouble)UINT_MAX);
 						#else
 							IntPtr[i] = (ILuint)( ((ILfloat*)Buffer)[i] * UINT_MAX);
 						#endif
@@ -2137,10 +2137,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 						#if CLAMP_FLOATS
 							*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
 							tempFloat = IL_CLAMP(tempFloat);
-							IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+							IntPtr[i] = (ILuint)(tempFloat * (ILdouble)UINT_MAX);
 						#else
 						*((ILuint*)&tempFloat) = ilHalfToFloat(((ILushort*)Buffer)[i]);
-						IntPtr[i] = (ILuint)(tempFloat * UINT_MAX);
+						IntPtr[i] = (ILuint)(tempFloat * (ILdouble)UINT_MAX);
 						#endif
 					}
 					break;
-- 
2.43.0


From b6a0adbdf602104b03fe0b36f68881c466d648a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 21/71] fix: converting between signed and unsigned samples of
 the same size returned uninitialised data

---
 DevIL/src-IL/src/il_convbuff.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index d5cfcb3..83119c9 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -2005,6 +2005,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			BytePtr = (ILubyte*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_BYTE:
+				case IL_BYTE:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_SHORT:
 				case IL_SHORT:
 					for (i = 0; i < Size; i++) {
@@ -2057,6 +2061,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			ShortPtr = (ILushort*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_SHORT:
+				case IL_SHORT:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
@@ -2109,6 +2117,10 @@ void* ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType
 			IntPtr = (ILuint*)NewData;
 			switch (SrcType)
 			{
+				case IL_UNSIGNED_INT:
+				case IL_INT:
+					memcpy(NewData, Buffer, Size * BpcDest);
+					break;
 				case IL_UNSIGNED_BYTE:
 				case IL_BYTE:
 					for (i = 0; i < Size; i++) {
-- 
2.43.0


From 3aaf196cb6ec42ad09df5ed94d4341debd5d9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 22/71] fix: new alpha and luminance values of half float
 pixels were computed on the bit patterns

---
 DevIL/src-IL/src/il_convbuff.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 83119c9..291fdda 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -55,6 +55,17 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		return NULL;
 	}
 
+	// Half floats have no arithmetic of their own: change the format as float.
+	if (DestType == IL_HALF && DestFormat != SrcFormat && SrcFormat != IL_COLOUR_INDEX && ilGetBpcType(SrcType) != 0) {
+		NumPix = SizeOfData / ilGetBpcType(SrcType) / ilGetBppFormat(SrcFormat);
+		Data = ilConvertBuffer(SizeOfData, SrcFormat, DestFormat, SrcType, IL_FLOAT, SrcPal, Buffer);
+		if (Data == NULL)
+			return NULL;
+		NewData = (ILubyte*)iSwitchTypes(NumPix * ilGetBppFormat(DestFormat) * sizeof(ILfloat), IL_FLOAT, IL_HALF, Data);
+		ifree(Data);
+		return NewData;
+	}
+
 	Data = iSwitchTypes(SizeOfData, SrcType, DestType, Buffer);
 	if (Data == NULL)
 		return NULL;
-- 
2.43.0


From 807bd9232bf731d6071bb7c8f3a624f790aa6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 23/71] fix: swapping the colours of an image left all but the
 first slice unchanged

---
 DevIL/src-IL/src/il_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..6ff70e0 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -443,7 +443,7 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 //	Must be either an 8, 24 or 32-bit (coloured) image (or palette).
 ILboolean ilSwapColours()
 {
-	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height;
+	ILuint		i = 0, Size = iCurImage->Bpp * iCurImage->Width * iCurImage->Height * iCurImage->Depth;
 	ILbyte		PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr, Temp;
-- 
2.43.0


From a3766527a1c914b12724b2adc140c3605e54756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 24/71] fix: adding alpha to an image dropped all but the first
 slice

---
 DevIL/src-IL/src/il_convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 6ff70e0..0bff45d 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -575,10 +575,10 @@ ILboolean ilAddAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height / iCurImage->Bpc;
+	Size = iCurImage->Bps * iCurImage->Height * iCurImage->Depth / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp + 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
@@ -706,11 +706,11 @@ ILboolean ilAddAlphaKey(ILimage *Image)
 			KeyColour[2] = KeyBlue;
 		}
 
-		Size = Image->Bps * Image->Height / Image->Bpc;
+		Size = Image->Bps * Image->Height * Image->Depth / Image->Bpc;
 
 		NewBpp = (ILubyte)(Image->Bpp + 1);
 		
-		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height);
+		NewData = (ILubyte*)ialloc(NewBpp * Image->Bpc * Image->Width * Image->Height * Image->Depth);
 		if (NewData == NULL) {
 			return IL_FALSE;
 		}
-- 
2.43.0


From 560938e1716672165975911a411d6a25195d71be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 25/71] fix: removing alpha overran the buffers of images with
 more than one byte per sample and dropped all but the first slice

---
 DevIL/src-IL/src/il_convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 0bff45d..33dfcd3 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -902,10 +902,10 @@ ILboolean ilRemoveAlpha()
 		return IL_FALSE;
 	}
 
-	Size = iCurImage->Bps * iCurImage->Height;
+	Size = iCurImage->Bps * iCurImage->Height * iCurImage->Depth / iCurImage->Bpc;
 	NewBpp = (ILubyte)(iCurImage->Bpp - 1);
 	
-	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height);
+	NewData = (ILubyte*)ialloc(NewBpp * iCurImage->Bpc * iCurImage->Width * iCurImage->Height * iCurImage->Depth);
 	if (NewData == NULL) {
 		return IL_FALSE;
 	}
-- 
2.43.0


From 56628a56eda6768773c91219f9f332bb37700c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 26/71] fix: the size of the buffer overflowed when adding
 alpha to images of more than a gigabyte

---
 DevIL/src-IL/src/il_convbuff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 291fdda..2238efa 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -201,7 +201,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGBA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -253,7 +253,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGRA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -846,7 +846,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGRA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -898,7 +898,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGBA:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 4 / 3);
+					NewData = (ILubyte*)ialloc(NumPix / 3 * BpcDest * 4);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
-- 
2.43.0


From 65cd1a876bb36d72a31dcf9d44d5432c4b1c2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 27/71] fix: the size of the buffer overflowed when removing
 alpha from images of more than 1.4 gigabytes

---
 DevIL/src-IL/src/il_convbuff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 2238efa..609fb9a 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -515,7 +515,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGB:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -562,7 +562,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGR:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -1160,7 +1160,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_BGR:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
@@ -1207,7 +1207,7 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					break;
 
 				case IL_RGB:
-					NewData = (ILubyte*)ialloc(NumPix * BpcDest * 3 / 4);
+					NewData = (ILubyte*)ialloc(NumPix * BpcDest / 4 * 3);
 					CHECK_ALLOC();
 					switch (DestType)
 					{
-- 
2.43.0


From f75102d712d48c10363d49d044e42014160abbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 28/71] fix: ilGetAlpha returned NaN as the opacity of float
 images, nothing for half images and leaked converted alpha images

---
 DevIL/src-IL/src/il_manip.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 97ad14c..747ab7e 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -890,19 +890,32 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 		case IL_BGR:
 		case IL_LUMINANCE:
 		case IL_COLOUR_INDEX:  // @TODO: Make IL_COLOUR_INDEX separate.
-			memset(Alpha, 0xFF, Size / TempImage->Bpp * Bpc);
+			Size /= TempImage->Bpp;
+			switch (Type)
+			{
+				case IL_HALF:
+					for (i = 0; i < Size; i++)
+						((ILushort*)Alpha)[i] = 0x3C00;  // 1.0
+					break;
+				case IL_FLOAT:
+					for (i = 0; i < Size; i++)
+						((ILfloat*)Alpha)[i] = 1.0f;
+					break;
+				case IL_DOUBLE:
+					for (i = 0; i < Size; i++)
+						((ILdouble*)Alpha)[i] = 1.0;
+					break;
+				default:
+					memset(Alpha, 0xFF, Size * Bpc);
+			}
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return Alpha;
 	}
 
-	// If our format is alpha, just return a copy.
-	if (TempImage->Format == IL_ALPHA) {
-		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
-		return Alpha;
-	}
-		
-	if (TempImage->Format == IL_LUMINANCE_ALPHA)
+	if (TempImage->Format == IL_ALPHA)
+		AlphaOff = 1;
+	else if (TempImage->Format == IL_LUMINANCE_ALPHA)
 		AlphaOff = 2;
 	else
 		AlphaOff = 4;
@@ -917,6 +930,7 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
+		case IL_HALF:  // Same size.
 			AlphaShort = (ILushort*)Alpha;
 			for (i = AlphaOff-1, j = 0; i < Size; i += AlphaOff, j++)
 				AlphaShort[j] = ((ILushort*)TempImage->Data)[i];
-- 
2.43.0


From 89ebe9276fd2c3676d0a75edcb63c2ced45598d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 29/71] fix: ilSetAlpha truncated 32-bit alpha values to 16
 bits, converted alpha images to RGBA and ignored half images

---
 DevIL/src-IL/src/il_manip.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 747ab7e..bf7a73b 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -991,6 +991,7 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			break;
 		case IL_ALPHA:
 			AlphaOff = 1;
+			break;
 		case IL_COLOUR_INDEX: //@TODO use palette with alpha
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
@@ -1020,11 +1021,19 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 		}
 		case IL_INT:
 		case IL_UNSIGNED_INT: {
-			const ILushort alpha = (ILushort)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
+			const ILuint alpha = (ILuint)(AlphaValue * IL_MAX_UNSIGNED_INT + .5);
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
 				((ILuint*)Image->Data)[i] = alpha;
 			break;
 		}
+		case IL_HALF: {
+			union { ILfloat f; ILuint i; } value;
+			value.f = (ILfloat)AlphaValue;
+			const ILushort alpha = ilFloatToHalf(value.i);
+			for (i = AlphaOff-1; i < Size; i += AlphaOff)
+				((ILushort*)Image->Data)[i] = alpha;
+			break;
+		}
 		case IL_FLOAT: {
 			const ILfloat alpha = (ILfloat)AlphaValue;
 			for (i = AlphaOff-1; i < Size; i += AlphaOff)
-- 
2.43.0


From af20c4e7443629fd72b6f87cc4c28ab2db9fd45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 30/71] fix: clearing filled luminance, alpha, 32-bit integer
 and palette images with the wrong colour and wrote past the pixel of BGR ones

---
 DevIL/src-IL/src/il_devil.cpp | 62 +++++++++++++++++------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..1167781 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -374,7 +374,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					BytePtr[2] = (ILubyte)(ClearRed * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearGreen * UCHAR_MAX);
 					BytePtr[0] = (ILubyte)(ClearBlue * UCHAR_MAX);
-					BytePtr[3] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -385,13 +384,15 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					BytePtr[0] = (ILubyte)(ClearLum * UCHAR_MAX);
 					BytePtr[1] = (ILubyte)(ClearAlpha * UCHAR_MAX);
+					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					BytePtr[0] = (ILubyte)(ClearAlpha * UCHAR_MAX);
 					break;
@@ -424,7 +425,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[2] = (ILushort)(ClearRed * USHRT_MAX);
 					ShortPtr[1] = (ILushort)(ClearGreen * USHRT_MAX);
 					ShortPtr[0] = (ILushort)(ClearBlue * USHRT_MAX);
-					ShortPtr[3] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
 				case IL_BGRA:
@@ -435,7 +435,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
+					ShortPtr[0] = (ILushort)(ClearLum * USHRT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -443,6 +443,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					ShortPtr[1] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					ShortPtr[0] = (ILushort)(ClearAlpha * USHRT_MAX);
 					break;
@@ -459,43 +460,43 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 			switch (Format)
 			{
 				case IL_RGB:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
 					break;
 					
 				case IL_RGBA:
-					IntPtr[0] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[2] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_BGR:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
 					break;
 					
 				case IL_BGRA:
-					IntPtr[2] = (ILuint)(ClearRed * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearGreen * UINT_MAX);
-					IntPtr[0] = (ILuint)(ClearBlue * UINT_MAX);
-					IntPtr[3] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[2] = (ILuint)((ILdouble)ClearRed * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearGreen * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearBlue * UINT_MAX);
+					IntPtr[3] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
-					IntPtr[0] = (ILuint)(ClearLum * UINT_MAX);
-					IntPtr[1] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearLum * UINT_MAX);
+					IntPtr[1] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
-					IntPtr[0] = (ILuint)(ClearAlpha * UINT_MAX);
+					IntPtr[0] = (ILuint)((ILdouble)ClearAlpha * UINT_MAX);
 					break;
 					
 				default:
@@ -525,7 +526,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					FloatPtr[2] = ClearRed;
 					FloatPtr[1] = ClearGreen;
 					FloatPtr[0] = ClearBlue;
-					FloatPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -536,14 +536,15 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
 					FloatPtr[0] = ClearLum;
-					FloatPtr[0] = ClearAlpha;
+					FloatPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					FloatPtr[0] = ClearAlpha;
 					break;
@@ -575,7 +576,6 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[2] = ClearRed;
 					DblPtr[1] = ClearGreen;
 					DblPtr[0] = ClearBlue;
-					DblPtr[3] = ClearAlpha;
 					break;
 					
 				case IL_BGRA:
@@ -586,7 +586,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					break;
 					
 				case IL_LUMINANCE:
-					DblPtr[0] = ClearAlpha;
+					DblPtr[0] = ClearLum;
 					break;
 					
 				case IL_LUMINANCE_ALPHA:
@@ -594,6 +594,7 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 					DblPtr[1] = ClearAlpha;
 					break;
 					
+				case IL_ALPHA:
 				case IL_COLOUR_INDEX:
 					DblPtr[0] = ClearAlpha;
 					break;
@@ -703,10 +704,7 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 		Image->Pal.PalType = IL_PAL_RGBA32;
 		Image->Pal.PalSize = 4;
 		
-		Image->Pal.Palette[0] = Colours[0] * UCHAR_MAX;
-		Image->Pal.Palette[1] = Colours[1] * UCHAR_MAX;
-		Image->Pal.Palette[2] = Colours[2] * UCHAR_MAX;
-		Image->Pal.Palette[3] = Colours[3] * UCHAR_MAX;
+		ilGetClear(Image->Pal.Palette, IL_RGBA, IL_UNSIGNED_BYTE);
 	}
 	
 	return IL_TRUE;
-- 
2.43.0


From ef7297a6a1dadf6f0b9ffaeb2db12bc2c782be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 31/71] fix: clearing left half float images unchanged

---
 DevIL/src-IL/src/il_devil.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 1167781..afc2eb1 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -349,9 +349,18 @@ ILAPI void ILAPIENTRY ilGetClear(void *Colours, ILenum Format, ILenum Type)
 	ILuint		*IntPtr;
 	ILfloat 	*FloatPtr;
 	ILdouble	*DblPtr;
+	union { ILfloat f; ILuint i; } Floats[4];
+	ILuint		c;
 	
 	switch (Type)
 	{
+		case IL_HALF:
+			ilGetClear(Floats, Format, IL_FLOAT);
+			ShortPtr = (ILushort*)Colours;
+			for (c = 0; c < ilGetBppFormat(Format); c++)
+				ShortPtr[c] = ilFloatToHalf(Floats[c].i);
+			break;
+
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			BytePtr = (ILubyte*)Colours;
@@ -654,6 +663,7 @@ ILAPI ILboolean ILAPIENTRY ilClearImage_(ILimage *Image)
 				
 			case IL_SHORT:
 			case IL_UNSIGNED_SHORT:
+			case IL_HALF:
 				ShortPtr = (ILushort*)Colours;
 				for (c = 0; c < NumBytes; c += Image->Bpc) {
 					for (i = c; i < Image->SizeOfData; i += NumBytes) {
-- 
2.43.0


From 7046dc1a95774f4e7da9c16aae1d6a52acb023c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 32/71] fix: defining an image with sizes beyond 32 bits
 allocated a small buffer, and with an unknown type left it pointing to freed
 memory

---
 DevIL/src-IL/src/il_devil.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index afc2eb1..1771457 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -16,10 +16,32 @@
 #include <limits.h>
 
 
+// Checks that the data of an image of this shape (0 counting as 1) can be addressed with the 32-bit sizes of ILimage.
+static ILboolean iIsValidSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
+{
+	ILuint Max = UINT_MAX;
+
+	if (Bpp == 0 || Bpc == 0)
+		return IL_FALSE;
+
+	Max /= Bpp * Bpc;
+	if (Width > Max)
+		return IL_FALSE;
+	if (Width != 0)
+		Max /= Width;
+	if (Height > Max)
+		return IL_FALSE;
+	if (Height != 0)
+		Max /= Height;
+
+	return Depth <= Max;
+}
+
+
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
-	if (BpcType == 0) {
+	if (!iIsValidSize(Width, Height, Depth, Bpp, BpcType)) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -137,6 +159,11 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 		return IL_FALSE;
 	}
 
+	if (!iIsValidSize(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
@@ -200,6 +227,11 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 		return IL_FALSE;
 	}
 
+	if (!iIsValidSize(Width, Height, Depth, Bpp, ilGetBpcType(Type))) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	////
 
 	// Not sure if we should be getting rid of the palette...
-- 
2.43.0


From b5a0e86c5c91fa585f7415b6a7ea3351c320206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 33/71] fix: resizing an image with sizes beyond 32 bits
 allocated a small buffer

---
 DevIL/src-IL/src/il_devil.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 1771457..8c1684e 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1161,6 +1161,14 @@ ILAPI ILboolean ILAPIENTRY ilResizeImage(ILimage *Image, ILuint Width, ILuint He
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
+
+	if (!iIsValidSize(Width, Height, Depth, Bpp, Bpc)) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (Width  == 0) Width = 1;
+	if (Height == 0) Height = 1;
+	if (Depth  == 0) Depth = 1;
 	
 	if (Image->Data != NULL)
 		ifree(Image->Data);
-- 
2.43.0


From 2b8f3704536b9b87a45bf024e12d2fcd2b423861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 34/71] fix: creating an image of an unknown type freed an
 uninitialised pointer

---
 DevIL/src-IL/src/il_devil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 8c1684e..dbafcb9 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -90,7 +90,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 		return NULL;
 	}
 
-	Image = (ILimage*)ialloc(sizeof(ILimage));
+	Image = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Image == NULL) {
 		return NULL;
 	}
@@ -116,7 +116,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 		return NULL;
 	}
 
-	Image = (ILimage*)ialloc(sizeof(ILimage));
+	Image = (ILimage*)icalloc(1, sizeof(ILimage));
 	if (Image == NULL) {
 		return NULL;
 	}
-- 
2.43.0


From a5071be4afb0061d4ffb5f0a5c2a75b0ba6a5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 35/71] fix: copying an image onto itself read freed memory and
 failures went unnoticed

---
 DevIL/src-IL/src/il_devil.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index dbafcb9..11df3e6 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1097,10 +1097,18 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
+	iCurImage = DestImage;  // Could be a subimage.
+	if (SrcImage == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+	if (SrcImage == DestImage)
+		return IL_TRUE;
+
+	if (!ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
 	
-	return IL_TRUE;
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
-- 
2.43.0


From 80133667d66ff8933fafa60f433d4950046e242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 36/71] fix: cloning the current image left the name of the
 clone bound

---
 DevIL/src-IL/src/il_devil.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 11df3e6..bfb4fa0 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1138,7 +1138,8 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id, CurName = ilGetCurName();
+	ILboolean Copied;
 	ILimage *CurImage;
 	
 	if (iCurImage == NULL) {
@@ -1153,10 +1154,16 @@ ILuint ILAPIENTRY ilCloneCurImage()
 	CurImage = iCurImage;
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	Copied = ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data) &&
+		ilCopyImageAttr(iCurImage, CurImage);
 	
-	iCurImage = CurImage;
+	ilBindImage(CurName);
+	iCurImage = CurImage;  // Could be a subimage.
+
+	if (!Copied) {
+		ilDeleteImages(1, &Id);
+		return 0;
+	}
 	
 	return Id;
 }
-- 
2.43.0


From 175e91f4f4eb2039781a4f0a0ae6e6f0d05653f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 37/71] fix: the copies of an image leaked their old animation
 list

---
 DevIL/src-IL/src/il_devil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index bfb4fa0..be2a112 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1022,6 +1022,11 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		ilCloseImage(Dest->Next);
 		Dest->Next = NULL;
 	}
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
+	}
 	if (Dest->Profile) {
 		ifree(Dest->Profile);
 		Dest->Profile = NULL;
-- 
2.43.0


From 0b9940580799ca741df625b353dde877ea868a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 38/71] fix: blitting ignored negative offsets and the sample
 size, wrote and read outside of the images and left the images flipped on
 failure

---
 DevIL/src-IL/src/il_devil.cpp | 237 +++++++++++++++++-----------------
 1 file changed, 121 insertions(+), 116 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index be2a112..73bc1c4 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -758,29 +758,62 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 {
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
+	ILimage	*DestImage = iCurImage;
+
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	
 	Dest = ilGetCurName();
 	ilBindImage(Source);
+	if (iCurImage == NULL) {
+		ilBindImage(Dest);
+		iCurImage = DestImage;
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
+	iCurImage = DestImage;  // Could be a subimage.
 
 	return ilBlit(Source, XCoord, YCoord, ZCoord, 0, 0, 0, Width, Height, Depth);
 }
 
+
+// Limits one dimension of the region that ilBlit copies to the source and the destination image.
+//	The positions Start to End - 1 of the region are inside both.
+static void iClipBlit(ILint Dest, ILuint DestSize, ILuint Src, ILuint SrcSize, ILuint Size, ILuint *Start, ILuint *End)
+{
+	*Start = Dest >= 0 ? 0 : 0u - (ILuint)Dest;
+	*End = Src < SrcSize ? SrcSize - Src : 0;
+	if (*End > Size)
+		*End = Size;
+	if (Dest >= 0) {
+		DestSize = (ILuint)Dest < DestSize ? DestSize - (ILuint)Dest : 0;
+		if (*End > DestSize)
+			*End = DestSize;
+	}
+	else if (*End > *Start && *End - *Start > DestSize)
+		*End = *Start + DestSize;
+
+	if (*Start > *End)
+		*Start = *End;
+}
+
+
 //@NEXT DestX,DestY,DestZ must be set to ILuint
 ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint DestZ, 
                                            ILuint SrcX,  ILuint SrcY,   ILuint SrcZ,
                                            ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILuint 		x, y, z, ConvBps, ConvSizePlane;
-	ILimage 	*Dest,*Src;
-	ILubyte 	*Converted;
+	ILuint 		x, y, z, c, PixSize, Channels;
+	ILimage 	*Dest, *Src;
+	ILubyte 	*Converted, *Alpha = NULL, *SrcRow, *DestRow, *AlphaRow;
 	ILuint		DestName = ilGetCurName();
-	ILuint		c;
-	ILuint		StartX, StartY, StartZ;
-	ILboolean	DestFlipped = IL_FALSE;
-	ILubyte 	*SrcTemp;
-	ILfloat		Back;
+	ILuint		StartX, StartY, StartZ, EndX, EndY, EndZ;
+	ILuint		SrcLine, DestLine;
+	ILdouble	Front, Back;
 
 	// Check if the desiination image really exists
 	if (DestName == 0 || iCurImage == NULL) {
@@ -789,130 +822,102 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	}
 	Dest = iCurImage;
 	
-	// set the destination image to upper left origin
-	if (Dest->Origin == IL_ORIGIN_LOWER_LEFT) {  // Dest
-		DestFlipped = IL_TRUE;
-		ilFlipImage();
-	}
-	//DestOrigin = Dest->Origin;
-	ilBindImage(Source);
-	
 	// Check if the source image really exists
-	if (iCurImage == NULL) {
+	ilBindImage(Source);
+	Src = iCurImage;
+	ilBindImage(DestName);
+	iCurImage = Dest;  // Could be a subimage.
+	if (Src == NULL) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 	
-	Src = iCurImage;
-	
-	//@TODO test if coordinates are inside the images (hard limit for source)
-	
-	// set the source image to upper left origin
-	if (Src->Origin == IL_ORIGIN_LOWER_LEFT)
-	{
-		SrcTemp = iGetFlipped(iCurImage);
-		if (SrcTemp == NULL)
-		{
-			ilBindImage(DestName);
-			if (DestFlipped)
-				ilFlipImage();
-			return IL_FALSE;
-		}
-	}
-	else
-	{
-		SrcTemp = iCurImage->Data;
-	}
+	// Limit the copy of data inside of both images
+	iClipBlit(DestX, Dest->Width,  SrcX, Src->Width,  Width,  &StartX, &EndX);
+	iClipBlit(DestY, Dest->Height, SrcY, Src->Height, Height, &StartY, &EndY);
+	iClipBlit(DestZ, Dest->Depth,  SrcZ, Src->Depth,  Depth,  &StartZ, &EndZ);
+	if (StartX == EndX || StartY == EndY || StartZ == EndZ)
+		return IL_TRUE;
 	
 	// convert source image to match the destination image type and format
-	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
+	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, &Src->Pal, Src->Data);
 	if (Converted == NULL)
 		return IL_FALSE;
+
+	// In case of Alpha channel, the data is blended. Keeps the original alpha.
+	if (ilIsEnabled(IL_BLIT_BLEND) && Dest->Format != IL_COLOUR_INDEX && Dest->Format != IL_ALPHA &&
+		(Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA)) {
+		Alpha = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, IL_ALPHA, Src->Type, Dest->Type, NULL, Src->Data);
+		if (Alpha == NULL) {
+			ifree(Converted);
+			return IL_FALSE;
+		}
+	}
 	
-	ConvBps 	  = Dest->Bpp * Src->Width;
-	ConvSizePlane = ConvBps   * Src->Height;
-	
-	//@NEXT in next version this would have to be removed since Dest* will be unsigned
-	StartX = DestX >= 0 ? 0 : -DestX;
-	StartY = DestY >= 0 ? 0 : -DestY;
-	StartZ = DestZ >= 0 ? 0 : -DestZ;
-	
-	// Limit the copy of data inside of the destination image
-	if (Width  + DestX > Dest->Width)  Width  = Dest->Width  - DestX;
-	if (Height + DestY > Dest->Height) Height = Dest->Height - DestY;
-	if (Depth  + DestZ > Dest->Depth)  Depth  = Dest->Depth  - DestZ;
-	
-	//@TODO: non funziona con rgba
-	if (Src->Format == IL_RGBA || Src->Format == IL_BGRA || Src->Format == IL_LUMINANCE_ALPHA) {
-		const ILuint bpp_without_alpha = Dest->Bpp - 1;
-		for (z = 0; z < Depth; z++) {
-			for (y = 0; y < Height; y++) {
-				for (x = 0; x < Width; x++) {
-					const ILuint  SrcIndex  = (z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp;
-					const ILuint  DestIndex = (z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp;
-					const ILuint  AlphaIdx = SrcIndex + bpp_without_alpha;
-					ILfloat Front = 0;
-					
-					switch (Dest->Type)
-					{
-						case IL_BYTE:
-						case IL_UNSIGNED_BYTE:
-							Front = Converted[AlphaIdx]/((float)IL_MAX_UNSIGNED_BYTE);
-							break;
-						case IL_SHORT:
-						case IL_UNSIGNED_SHORT:
-							Front = ((ILshort*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_SHORT);
-							break;
-						case IL_INT:
-						case IL_UNSIGNED_INT:
-							Front = ((ILint*)Converted)[AlphaIdx]/((float)IL_MAX_UNSIGNED_INT);
-							break;
-						case IL_FLOAT:
-							Front = ((ILfloat*)Converted)[AlphaIdx];
-							break;
-						case IL_DOUBLE:
-							Front = (ILfloat)(((ILdouble*)Converted)[AlphaIdx]);
-							break;
-					}
-					Back = 1.0f - Front;
-					// In case of Alpha channel, the data is blended. Keeps the original alpha.
-					if (ilIsEnabled(IL_BLIT_BLEND)) {
-						for (c = 0; c < bpp_without_alpha; c++)
-						{
-							Dest->Data[DestIndex + c] = 
-								(ILubyte)(Converted[SrcIndex + c] * Front
-											+ Dest->Data[DestIndex + c] * Back);
-						}
-					}
-					else {
-						for (c = 0; c < Dest->Bpp; c++)
-						{
-							Dest->Data[DestIndex + c] = (ILubyte)(Converted[SrcIndex + c]);
-						}
-					}
-				}
+	PixSize = Dest->Bpp * Dest->Bpc;
+	Channels = Dest->Bpp;
+	if (Dest->Format == IL_RGBA || Dest->Format == IL_BGRA || Dest->Format == IL_LUMINANCE_ALPHA)
+		Channels--;
+
+	for (z = StartZ; z < EndZ; z++) {
+		for (y = StartY; y < EndY; y++) {
+			// The coordinates are relative to the upper left.
+			SrcLine = Src->Origin == IL_ORIGIN_LOWER_LEFT ? Src->Height - 1 - (SrcY + y) : SrcY + y;
+			DestLine = Dest->Origin == IL_ORIGIN_LOWER_LEFT ? Dest->Height - 1 - (DestY + y) : DestY + y;
+			SrcLine += (SrcZ + z) * Src->Height;
+			SrcRow = Converted + (SrcLine * Src->Width + SrcX + StartX) * PixSize;
+			DestRow = Dest->Data + (DestZ + z) * Dest->SizeOfPlane + DestLine * Dest->Bps + (DestX + StartX) * PixSize;
+
+			if (Alpha == NULL) {
+				memcpy(DestRow, SrcRow, (EndX - StartX) * PixSize);
+				continue;
 			}
-		}
-	} else {
-		for( z = 0; z < Depth; z++ ) {
-			for( y = 0; y < Height; y++ ) {
-				for( x = 0; x < Width; x++ ) {
-					for( c = 0; c < Dest->Bpp; c++ ) {
-						Dest->Data[(z+DestZ)*Dest->SizeOfPlane + (y+DestY)*Dest->Bps + (x+DestX)*Dest->Bpp + c] =
-						 Converted[(z+SrcZ)*ConvSizePlane + (y+SrcY)*ConvBps + (x+SrcX)*Dest->Bpp + c];
-					}
+
+			AlphaRow = Alpha + (SrcLine * Src->Width + SrcX + StartX) * Dest->Bpc;
+			for (x = 0; x < EndX - StartX; x++) {
+				switch (Dest->Type)
+				{
+					case IL_BYTE:
+					case IL_UNSIGNED_BYTE:
+						Front = AlphaRow[x] / (ILdouble)IL_MAX_UNSIGNED_BYTE;
+						Back = 1.0 - Front;
+						for (c = x * Dest->Bpp; c < x * Dest->Bpp + Channels; c++)
+							DestRow[c] = (ILubyte)(SrcRow[c] * Front + DestRow[c] * Back + 0.5);
+						break;
+					case IL_SHORT:
+					case IL_UNSIGNED_SHORT:
+						Front = ((ILushort*)AlphaRow)[x] / (ILdouble)IL_MAX_UNSIGNED_SHORT;
+						Back = 1.0 - Front;
+						for (c = x * Dest->Bpp; c < x * Dest->Bpp + Channels; c++)
+							((ILushort*)DestRow)[c] = (ILushort)(((ILushort*)SrcRow)[c] * Front + ((ILushort*)DestRow)[c] * Back + 0.5);
+						break;
+					case IL_INT:
+					case IL_UNSIGNED_INT:
+						Front = ((ILuint*)AlphaRow)[x] / (ILdouble)IL_MAX_UNSIGNED_INT;
+						Back = 1.0 - Front;
+						for (c = x * Dest->Bpp; c < x * Dest->Bpp + Channels; c++)
+							((ILuint*)DestRow)[c] = (ILuint)(((ILuint*)SrcRow)[c] * Front + ((ILuint*)DestRow)[c] * Back + 0.5);
+						break;
+					case IL_FLOAT:
+						Front = ((ILfloat*)AlphaRow)[x];
+						Back = 1.0 - Front;
+						for (c = x * Dest->Bpp; c < x * Dest->Bpp + Channels; c++)
+							((ILfloat*)DestRow)[c] = (ILfloat)(((ILfloat*)SrcRow)[c] * Front + ((ILfloat*)DestRow)[c] * Back);
+						break;
+					case IL_DOUBLE:
+						Front = ((ILdouble*)AlphaRow)[x];
+						Back = 1.0 - Front;
+						for (c = x * Dest->Bpp; c < x * Dest->Bpp + Channels; c++)
+							((ILdouble*)DestRow)[c] = ((ILdouble*)SrcRow)[c] * Front + ((ILdouble*)DestRow)[c] * Back;
+						break;
+					default:  // No blending for half floats.
+						memcpy(DestRow + x * PixSize, SrcRow + x * PixSize, PixSize);
 				}
 			}
 		}
 	}
 	
-	if (SrcTemp != iCurImage->Data)
-		ifree(SrcTemp);
-	
-	ilBindImage(DestName);
-	if (DestFlipped)
-		ilFlipImage();
-	
+	ifree(Alpha);
 	ifree(Converted);
 	
 	return IL_TRUE;
-- 
2.43.0


From 4665cb3a7d31746bd2c6aa43fccaca8ddee6761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 39/71] fix: expanding palette images lost the palette's alpha,
 all but the first slice, read and wrote out of bounds and used the palette of
 the current image

---
 DevIL/src-IL/src/il_convert.cpp | 280 ++++++++------------------------
 1 file changed, 69 insertions(+), 211 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 33dfcd3..ea4ac87 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -18,251 +18,109 @@
 ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 {
 	static const ILfloat LumFactor[3] = { 0.212671f, 0.715160f, 0.072169f };  // http://www.inforamp.net/~poynton/ and libpng's libpng.txt - Used for conversion to luminance.
-	ILimage		*NewImage = NULL, *CurImage = NULL;
-	ILuint		i, j, k, c, Size, LumBpp = 1;
-	ILfloat		Resultf;
-	ILubyte		*Temp = NULL;
-	ILboolean	Converted;
-	ILboolean	HasAlpha;
+	ILimage		*NewImage = NULL;
+	ILpal		*Pal;
+	ILubyte		Colours[256 * 4];  // What a pixel of every index becomes.
+	ILubyte		*Colour, Rgba[4];
+	ILuint		i, c, NumCols, Bpp;
+
+	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
+
+	Bpp = ilGetBppFormat(DestFormat);
+	if (Bpp == 0) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return NULL;
+	}
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
-		return IL_FALSE;
+		return NULL;
+	}
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		return NULL;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
+	if (DestFormat == IL_COLOUR_INDEX) {
+		// Just copy the original image over.
+		NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+		if (NewImage->Data == NULL) {
+			ilCloseImage(NewImage);
+			return NULL;
+		}
+		memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
+		return NewImage;
+	}
 
-	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
+	// iConvertPal already sets the error message - no need to confuse the user.
+	Pal = iConvertPal(&Image->Pal, IL_PAL_RGBA32);
+	if (Pal == NULL) {
 		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
 		return NULL;
 	}
 
-	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-		if (DestFormat == IL_LUMINANCE_ALPHA)
-			LumBpp = 2;
+	NumCols = Pal->PalSize / 4;
+	for (i = 0; i < 256; i++) {
+		// Indices beyond the end of the palette are black.
+		for (c = 0; c < 4; c++) {
+			Rgba[c] = i < NumCols ? Pal->Palette[i * 4 + c] : (c == 3 ? 0xFF : 0);
+		}
 
-		switch (iCurImage->Pal.PalType)
+		Colour = Colours + i * Bpp;
+		switch (DestFormat)
 		{
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_RGBA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;
-					for (c = 0; c < Size; c++) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[c];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
+			case IL_RGB:
+			case IL_RGBA:
+				for (c = 0; c < Bpp; c++)
+					Colour[c] = Rgba[c];
 				break;
 
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-			case IL_PAL_BGRA32:
-				Temp = (ILubyte*)ialloc(LumBpp * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += LumBpp) {
-					Resultf = 0.0f;  j = 2;
-					for (c = 0; c < Size; c++, j--) {
-						Resultf += Image->Pal.Palette[i + c] * LumFactor[j];
-					}
-					Temp[k] = (ILubyte)Resultf;
-					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
-							Temp[k+1] = Image->Pal.Palette[i + 3];
-						else
-							Temp[k+1] = 0xff;
-					}
-				}
-
+			case IL_BGR:
+			case IL_BGRA:
+				Colour[0] = Rgba[2];
+				Colour[1] = Rgba[1];
+				Colour[2] = Rgba[0];
+				if (Bpp == 4)
+					Colour[3] = Rgba[3];
 				break;
-		}
 
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * LumBpp;
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (LumBpp == 2) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = Temp[Image->Data[i]];
-			}
-		}
-
-		ifree(Temp);
-
-		return NewImage;
-	}
-	else if (DestFormat == IL_ALPHA) {
-		if (NewImage->Pal.Palette)
-			ifree(NewImage->Pal.Palette);
-
-		switch (iCurImage->Pal.PalType)
-		{
-			// Opaque, so all the values are 0xFF.
-			case IL_PAL_RGB24:
-			case IL_PAL_RGB32:
-			case IL_PAL_BGR24:
-			case IL_PAL_BGR32:
-				HasAlpha = IL_FALSE;
+			case IL_LUMINANCE:
+			case IL_LUMINANCE_ALPHA:
+				Colour[0] = (ILubyte)(Rgba[0] * LumFactor[0] + Rgba[1] * LumFactor[1] + Rgba[2] * LumFactor[2]);
+				if (Bpp == 2)
+					Colour[1] = Rgba[3];
 				break;
 
-			case IL_PAL_BGRA32:
-			case IL_PAL_RGBA32:
-				HasAlpha = IL_TRUE;
-				Temp = (ILubyte*)ialloc(1 * Image->Pal.PalSize / ilGetBppPal(Image->Pal.PalType));
-				if (Temp == NULL)
-					goto alloc_error;
-
-				Size = ilGetBppPal(Image->Pal.PalType);
-				for (i = 0, k = 0; i < Image->Pal.PalSize; i += Size, k += 1) {
-					Temp[k] = Image->Pal.Palette[i + 3];
-				}
-
+			case IL_ALPHA:
+				Colour[0] = Rgba[3];
 				break;
 		}
-
-		NewImage->Pal.Palette = NULL;
-		NewImage->Pal.PalSize = 0;
-		NewImage->Pal.PalType = IL_PAL_NONE;
-		NewImage->Format = DestFormat;
-		NewImage->Bpp = LumBpp;
-		NewImage->Bps = NewImage->Width * 1;  // Alpha is only one byte.
-		NewImage->SizeOfData = NewImage->SizeOfPlane = NewImage->Bps * NewImage->Height;
-		NewImage->Data = (ILubyte*)ialloc(NewImage->SizeOfData);
-		if (NewImage->Data == NULL)
-			goto alloc_error;
-
-		if (HasAlpha) {
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i*2] = Temp[Image->Data[i] * 2];
-				NewImage->Data[i*2+1] = Temp[Image->Data[i] * 2 + 1];
-			}
-		}
-		else {  // No alpha, opaque.
-			for (i = 0; i < Image->SizeOfData; i++) {
-				NewImage->Data[i] = 0xFF;
-			}
-		}
-
-		ifree(Temp);
-
-		return NewImage;
 	}
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	//NewImage->Format = ilGetPalBaseType(iCurImage->Pal.PalType);
+	ifree(NewImage->Pal.Palette);
+	NewImage->Pal.Palette = NULL;
+	NewImage->Pal.PalSize = 0;
+	NewImage->Pal.PalType = IL_PAL_NONE;
 	NewImage->Format = DestFormat;
 
-	if (ilGetBppFormat(NewImage->Format) == 0) {
-		ilCloseImage(NewImage);
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return NULL;
-	}
-
-	CurImage = iCurImage;
-	ilSetCurImage(NewImage);
-
-	switch (DestFormat)
-	{
-		case IL_RGB:
-			Converted = ilConvertPal(IL_PAL_RGB24);
-			break;
-
-		case IL_BGR:
-			Converted = ilConvertPal(IL_PAL_BGR24);
-			break;
-
-		case IL_RGBA:
-			Converted = ilConvertPal(IL_PAL_RGB32);
-			break;
-
-		case IL_BGRA:
-			Converted = ilConvertPal(IL_PAL_BGR32);
-			break;
-
-		case IL_COLOUR_INDEX:
-			// Just copy the original image over.
-			NewImage->Data = (ILubyte*)ialloc(CurImage->SizeOfData);
-			if (NewImage->Data == NULL)
-				goto alloc_error;
-			NewImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-			if (NewImage->Pal.Palette == NULL)
-				goto alloc_error;
-			memcpy(NewImage->Data, CurImage->Data, CurImage->SizeOfData);
-			memcpy(NewImage->Pal.Palette, Image->Pal.Palette, Image->Pal.PalSize);
-			NewImage->Pal.PalSize = Image->Pal.PalSize;
-			NewImage->Pal.PalType = Image->Pal.PalType;
-			ilSetCurImage(CurImage);
-			return NewImage;
-
-		default:
-			ilCloseImage(NewImage);
-			ilSetError(IL_INVALID_CONVERSION);
-			return NULL;
-	}
-
 	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
-
-	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
-		ilSetCurImage(CurImage);
+	if (!ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, Bpp, /*ilGetBpcType(DestType)*/1)) {
 		ilCloseImage(NewImage);
 		return NULL;
 	}
 
-	Size = ilGetBppPal(NewImage->Pal.PalType);
 	for (i = 0; i < Image->SizeOfData; i++) {
-		for (c = 0; c < NewImage->Bpp; c++) {
-			NewImage->Data[i * NewImage->Bpp + c] = NewImage->Pal.Palette[Image->Data[i] * Size + c];
+		for (c = 0; c < Bpp; c++) {
+			NewImage->Data[i * Bpp + c] = Colours[Image->Data[i] * Bpp + c];
 		}
 	}
 
-	ifree(NewImage->Pal.Palette);
-
-	NewImage->Pal.Palette = NULL;
-	NewImage->Pal.PalSize = 0;
-	NewImage->Pal.PalType = IL_PAL_NONE;
-	ilSetCurImage(CurImage);
-
 	return NewImage;
-
-alloc_error:
-	ifree(Temp);
-	if (NewImage)
-		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
-	return NULL;
 }
 
 
-- 
2.43.0


From 5c724f6f306eef37c4e7466940acfa1387c7d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 40/71] fix: converting the buffer of a palette image ignored
 the requested sample type, leaked and crashed without a palette

---
 DevIL/src-IL/src/il_convbuff.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 609fb9a..26d7cf1 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -87,6 +87,14 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 	// Colour-indexed images are special here
 	if (SrcFormat == IL_COLOUR_INDEX) {
+		// The colours of the palette have unsigned byte components.
+		if (Data != Buffer)
+			ifree(Data);
+		if (SrcPal == NULL) {
+			ilSetError(IL_INVALID_PARAM);
+			return NULL;
+		}
+
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (PalImage == NULL)
@@ -117,6 +125,10 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		// Set TempImage->Data to NULL so that we can preserve it via NewData, or
 		//  else it would get wiped out by ilCloseImage.
 		NewData = TempImage->Data;
+		Data = iSwitchTypes(TempImage->SizeOfData, IL_UNSIGNED_BYTE, DestType, NewData);
+		if (Data != NewData)
+			ifree(NewData);
+		NewData = (ILubyte*)Data;
 		TempImage->Data = NULL;
 		// So that we do not delete the original palette or data.
 		PalImage->Pal.Palette = NULL;
-- 
2.43.0


From e7d7bc9951049baecde02b395e5b358344efd458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 41/71] fix: converting a palette with an incomplete last entry
 read and wrote past its end

---
 DevIL/src-IL/src/il_pal.cpp | 71 ++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..d8c554c 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -587,7 +587,7 @@ ILAPI ILpal* ILAPIENTRY iCopyPal()
 ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 {
 	ILpal	*NewPal = NULL;
-	ILuint	i, j, NewPalSize;
+	ILuint	i, j, PalSize, NewPalSize;
 
 	// Checks to see if the current image is valid and has a palette
 	if (Pal == NULL || Pal->PalSize == 0 || Pal->Palette == NULL || Pal->PalType == IL_PAL_NONE) {
@@ -595,6 +595,13 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 		return NULL;
 	}
 
+	j = ilGetBppPal(Pal->PalType);
+	if (j == 0) {
+		ilSetError(IL_INVALID_PARAM);
+		return NULL;
+	}
+	PalSize = Pal->PalSize / j * j;  // Whole entries only.
+
 	/*if (Pal->PalType == DestFormat) {
 		return NULL;
 	}*/
@@ -603,7 +610,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 	if (NewPal == NULL) {
 		return NULL;
 	}
-	NewPal->PalSize = Pal->PalSize;
+	NewPal->PalSize = PalSize;
 	NewPal->PalType = Pal->PalType;
 
 	switch (DestFormat)
@@ -613,56 +620,56 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 			switch (Pal->PalType)
 			{
 				case IL_PAL_RGB24:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_BGR24) {
 						j = ilGetBppPal(Pal->PalType);
-						for (i = 0; i < Pal->PalSize; i += j) {
+						for (i = 0; i < PalSize; i += j) {
 							NewPal->Palette[i] = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				case IL_PAL_BGR24:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
 						j = ilGetBppPal(Pal->PalType);
-						for (i = 0; i < Pal->PalSize; i += j) {
+						for (i = 0; i < PalSize; i += j) {
 							NewPal->Palette[i] = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				case IL_PAL_BGR32:
 				case IL_PAL_BGRA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i+2];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i];
 						}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
@@ -674,19 +681,19 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				case IL_PAL_RGB32:
 				case IL_PAL_RGBA32:
-					NewPalSize = (ILuint)((ILfloat)Pal->PalSize * 3.0f / 4.0f);
+					NewPalSize = PalSize / 4 * 3;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB24) {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
 						}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 4, j += 3) {
+						for (i = 0, j = 0; i < PalSize; i += 4, j += 3) {
 							NewPal->Palette[j]   = Pal->Palette[i+2];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i];
@@ -698,7 +705,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
@@ -710,13 +717,13 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 			{
 				case IL_PAL_RGB24:
 				case IL_PAL_BGR24:
-					NewPalSize = Pal->PalSize * 4 / 3;
+					NewPalSize = PalSize / 3 * 4;
 					NewPal->Palette = (ILubyte*)ialloc(NewPalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if ((Pal->PalType == IL_PAL_BGR24 && (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32)) ||
 						(Pal->PalType == IL_PAL_RGB24 && (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32))) {
-							for (i = 0, j = 0; i < Pal->PalSize; i += 3, j += 4) {
+							for (i = 0, j = 0; i < PalSize; i += 3, j += 4) {
 								NewPal->Palette[j]   = Pal->Palette[i+2];
 								NewPal->Palette[j+1] = Pal->Palette[i+1];
 								NewPal->Palette[j+2] = Pal->Palette[i];
@@ -724,7 +731,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 							}
 					}
 					else {
-						for (i = 0, j = 0; i < Pal->PalSize; i += 3, j += 4) {
+						for (i = 0, j = 0; i < PalSize; i += 3, j += 4) {
 							NewPal->Palette[j]   = Pal->Palette[i];
 							NewPal->Palette[j+1] = Pal->Palette[i+1];
 							NewPal->Palette[j+2] = Pal->Palette[i+2];
@@ -736,12 +743,12 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_RGB32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 
 					if (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -749,7 +756,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i+2];
@@ -760,11 +767,11 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_RGBA32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_BGR32 || DestFormat == IL_PAL_BGRA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -772,17 +779,17 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 				
 				case IL_PAL_BGR32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -790,7 +797,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i+2];
@@ -801,11 +808,11 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 					break;
 
 				case IL_PAL_BGRA32:
-					NewPal->Palette = (ILubyte*)ialloc(Pal->PalSize);
+					NewPal->Palette = (ILubyte*)ialloc(PalSize);
 					if (NewPal->Palette == NULL)
 						goto alloc_error;
 					if (DestFormat == IL_PAL_RGB32 || DestFormat == IL_PAL_RGBA32) {
-						for (i = 0; i < Pal->PalSize; i += 4) {
+						for (i = 0; i < PalSize; i += 4) {
 							NewPal->Palette[i]   = Pal->Palette[i+2];
 							NewPal->Palette[i+1] = Pal->Palette[i+1];
 							NewPal->Palette[i+2] = Pal->Palette[i];
@@ -813,21 +820,21 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 						}
 					}
 					else {
-						memcpy(NewPal->Palette, Pal->Palette, Pal->PalSize);
+						memcpy(NewPal->Palette, Pal->Palette, PalSize);
 					}
 					NewPal->PalType = DestFormat;
 					break;
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
 
 		default:
 			ilSetError(IL_INVALID_PARAM);
-			return NULL;
+			goto alloc_error;
 	}
 
 	NewPal->PalType = DestFormat;
-- 
2.43.0


From 114a9fb3a1220130a43c7775d135235e3f4e53e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 42/71] fix: converting the palette of an image lost it when
 memory ran out

---
 DevIL/src-IL/src/il_pal.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index d8c554c..5d67484 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -863,16 +863,7 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 		return IL_FALSE;
 
 	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.PalSize = Pal->PalSize;
-	iCurImage->Pal.PalType = Pal->PalType;
-
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
+	iCurImage->Pal = *Pal;
 	ifree(Pal);
 	
 	return IL_TRUE;
-- 
2.43.0


From acac666c585446e902a03f39f821dfb351bac69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 43/71] fix: converting an image leaked on failure, mixed up
 wide luminance with palette indices and allowed sizes beyond 32 bits

---
 DevIL/src-IL/include/il_internal.h |  1 +
 DevIL/src-IL/src/il_convert.cpp    | 36 ++++++++++++++++++++----------
 DevIL/src-IL/src/il_devil.cpp      |  2 +-
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..8ac9590 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -203,6 +203,7 @@ ILAPI ILubyte*	ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 ILboolean	ilAddAlpha(void);
 ILboolean	ilAddAlphaKey(ILimage *Image);
 ILboolean	iFastConvert(ILenum DestFormat);
+ILboolean	iIsValidSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc);
 ILboolean	ilFixCur(void);
 ILboolean	ilFixImage(void);
 ILboolean	ilRemoveAlpha(void);
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ea4ac87..8de9059 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -132,11 +132,10 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols);
 // Converts an image from one format to another
 ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenum DestType)
 {
-	ILimage	*NewImage, *CurImage;
+	ILimage	*NewImage;
 	ILuint	i;
 	ILubyte	*NewData;
 
-	CurImage = Image;
 	if (Image == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
@@ -158,15 +157,20 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		if (DestType == NewImage->Type)
 			return NewImage;
 
+		if (!iIsValidSize(Image->Width, Image->Height, Image->Depth, NewImage->Bpp, ilGetBpcType(DestType))) {
+			ilSetError(IL_INVALID_PARAM);
+			ilCloseImage(NewImage);
+			return NULL;
+		}
+
 		NewData = (ILubyte*)ilConvertBuffer(NewImage->SizeOfData, NewImage->Format, DestFormat, NewImage->Type, DestType, NULL, NewImage->Data);
 		if (NewData == NULL) {
-			ifree(NewImage);  // ilCloseImage not needed.
+			ilCloseImage(NewImage);
 			return NULL;
 		}
 		ifree(NewImage->Data);
 		NewImage->Data = NewData;
 
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -182,18 +186,20 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			return iQuantizeImage(Image, iGetInt(IL_MAX_QUANT_INDICES));
 	}
 	else {
+		if (!iIsValidSize(Image->Width, Image->Height, Image->Depth, ilGetBppFormat(DestFormat), ilGetBpcType(DestType))) {
+			ilSetError(IL_INVALID_PARAM);
+			return NULL;
+		}
+
 		NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (NewImage == NULL) {
 			return NULL;
 		}
 
-		if (ilGetBppFormat(DestFormat) == 0) {
-			ilSetError(IL_INVALID_PARAM);
-			ifree(NewImage);
+		if (!ilCopyImageAttr(NewImage, Image)) {
+			ilCloseImage(NewImage);
 			return NULL;
 		}
-
-		ilCopyImageAttr(NewImage, Image);
 		NewImage->Format = DestFormat;
 		NewImage->Type = DestType;
 		NewImage->Bpc = ilGetBpcType(DestType);
@@ -203,25 +209,31 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 		NewImage->SizeOfData = NewImage->SizeOfPlane * NewImage->Depth;
 
 		if (DestFormat == IL_COLOUR_INDEX && Image->Format == IL_LUMINANCE) {
+			if (NewImage->Pal.Palette)
+				ifree(NewImage->Pal.Palette);
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
 				NewImage->Pal.Palette[i * 3 + 2] = i;
 			}
-			NewImage->Data = (ILubyte*)ialloc(Image->SizeOfData);
+			// The luminance is the index, so it has to be a byte.
+			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, IL_LUMINANCE, IL_LUMINANCE, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
 				ilCloseImage(NewImage);
 				return NULL;
 			}
-			memcpy(NewImage->Data, Image->Data, Image->SizeOfData);
 		}
 		else {
 			NewImage->Data = (ILubyte*)ilConvertBuffer(Image->SizeOfData, Image->Format, DestFormat, Image->Type, DestType, NULL, Image->Data);
 			if (NewImage->Data == NULL) {
-				ifree(NewImage);  // ilCloseImage not needed.
+				ilCloseImage(NewImage);
 				return NULL;
 			}
 		}
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 73bc1c4..ede7a36 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -17,7 +17,7 @@
 
 
 // Checks that the data of an image of this shape (0 counting as 1) can be addressed with the 32-bit sizes of ILimage.
-static ILboolean iIsValidSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
+ILboolean iIsValidSize(ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILubyte Bpc)
 {
 	ILuint Max = UINT_MAX;
 
-- 
2.43.0


From 90a7be8c95b0ea46ac14f577d1cdb063519125ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 44/71] fix: converting an image left the rest of its chain as
 it was when the first image already matched, and left a mixture on failure

---
 DevIL/src-IL/src/il_convert.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 8de9059..da34c71 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -252,17 +252,20 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 	\return Boolean value of failure or success*/
 ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 {
-	ILimage *Image, *pCurImage;
+	ILimage *Image, *pCurImage, *Converted = NULL, *Last = NULL;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	if (DestFormat == iCurImage->Format && DestType == iCurImage->Type)
+	pCurImage = iCurImage;
+	while (pCurImage != NULL && DestFormat == pCurImage->Format && DestType == pCurImage->Type)
+		pCurImage = pCurImage->Next;
+	if (pCurImage == NULL)
 		return IL_TRUE;  // No conversion needed.
 
-	if (DestType == iCurImage->Type) {
+	if (DestType == iCurImage->Type && iCurImage->Next == NULL) {
 		if (iFastConvert(DestFormat)) {
 			iCurImage->Format = DestFormat;
 			return IL_TRUE;
@@ -273,12 +276,30 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		ilAddAlphaKey(iCurImage);
 	}
 
+	// Convert all images of the chain before changing any of them.
 	pCurImage = iCurImage;
 	while (pCurImage != NULL)
 	{
 		Image = iConvertImage(pCurImage, DestFormat, DestType);
-		if (Image == NULL)
+		if (Image == NULL) {
+			ilCloseImage(Converted);
 			return IL_FALSE;
+		}
+		if (Last == NULL)
+			Converted = Image;
+		else
+			Last->Next = Image;
+		Last = Image;
+
+		pCurImage = pCurImage->Next;
+	}
+
+	pCurImage = iCurImage;
+	while (pCurImage != NULL)
+	{
+		Image = Converted;
+		Converted = Image->Next;
+		Image->Next = NULL;
 
 		//ilCopyImageAttr(pCurImage, Image);  // Destroys subimages.
 
-- 
2.43.0


From 398aeaffa206cf040d650bc3a0ad84e04a5acd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 45/71] fix: quantizing an image with more than one byte per
 sample or more than one slice gave inconsistent sizes, and leaked

---
 DevIL/src-IL/src/il_neuquant.cpp  | 11 +++++++++--
 DevIL/src-IL/src/il_quantizer.cpp | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index c00f4a0..9569d73 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -427,11 +427,18 @@ ILimage *iNeuQuant(ILimage *Image, ILuint NumCols)
 		ifree(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(TempImage);
+		ilCloseImage(NewImage);
+		return NULL;
+	}
+	if (NewImage->Pal.Palette)
+		ifree(NewImage->Pal.Palette);
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..5255300 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -446,6 +446,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	NewData = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
 	Palette = (ILubyte*)ialloc(3 * num_alloced_colors);
 	if (!NewData || !Palette) {
+		ilCloseImage(TempImage);
 		ifree(NewData);
 		ifree(Palette);
 		return NULL;
@@ -455,6 +456,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	Ig = (ILubyte*)ialloc(Width * Height * Depth);
 	Ib = (ILubyte*)ialloc(Width * Height * Depth);
 	if (!Ir || !Ig || !Ib) {
+		ilCloseImage(TempImage);
 		ifree(Ir);
 		ifree(Ig);
 		ifree(Ib);
@@ -614,13 +616,23 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
 	if (NewImage == NULL) {
+		ifree(NewData);
+		ifree(Palette);
+		return NULL;
+	}
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ifree(NewData);
+		ifree(Palette);
+		ilCloseImage(NewImage);
 		return NULL;
 	}
-	ilCopyImageAttr(NewImage, Image);
+	if (NewImage->Pal.Palette)
+		ifree(NewImage->Pal.Palette);
 	NewImage->Bpp = 1;
+	NewImage->Bpc = 1;
 	NewImage->Bps = Image->Width;
 	NewImage->SizeOfPlane = NewImage->Bps * Image->Height;
-	NewImage->SizeOfData = NewImage->SizeOfPlane;
+	NewImage->SizeOfData = NewImage->SizeOfPlane * Image->Depth;
 	NewImage->Format = IL_COLOUR_INDEX;
 	NewImage->Type = IL_UNSIGNED_BYTE;
 
-- 
2.43.0


From 76fb4e1743781540aa8cbe76b622e6e8a866164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:07 +0000
Subject: [PATCH 46/71] fix: quantizing small images with the neural network
 divided by zero and read outside of the image

---
 DevIL/src-IL/src/il_neuquant.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_neuquant.cpp b/DevIL/src-IL/src/il_neuquant.cpp
index 9569d73..57dde28 100644
--- a/DevIL/src-IL/src/il_neuquant.cpp
+++ b/DevIL/src-IL/src/il_neuquant.cpp
@@ -349,6 +349,7 @@ void learn()
 	lim = thepicture + lengthcount;
 	samplepixels = lengthcount/(3*samplefac);
 	delta = samplepixels/ncycles;
+	if (delta == 0) delta = 1;
 	alpha = initalpha;
 	radius = initradius;
 	
@@ -379,7 +380,7 @@ void learn()
 		if (rad) alterneigh(rad,j,b,g,r);   // alter neighbours
 
 		p += step;
-		if (p >= lim) p -= lengthcount;
+		while (p >= lim) p -= lengthcount;
 	
 		i++;
 		if (i%delta == 0) {	
-- 
2.43.0


From a4a9f24cb344314075f0d3991f1e4b1a818a6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 47/71] fix: converting an image to palette indices of an
 unknown type left it with samples of zero bytes

---
 DevIL/src-IL/src/il_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index da34c71..5deb7ac 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -142,7 +142,7 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 	}
 
 	// We don't support 16-bit color indices (or higher).
-	if (DestFormat == IL_COLOUR_INDEX && DestType >= IL_SHORT) {
+	if (DestFormat == IL_COLOUR_INDEX && ilGetBpcType(DestType) != 1) {
 		ilSetError(IL_INVALID_CONVERSION);
 		return NULL;
 	}
-- 
2.43.0


From ceec3bebd63933731744a44d5c4c12616cf7227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 48/71] fix: registering or setting a palette leaked the old
 one, and left a size without a palette when memory ran out

---
 DevIL/src-IL/src/il_pal.cpp      | 13 +++++++------
 DevIL/src-IL/src/il_register.cpp | 28 ++++++++++++++++------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 5d67484..dd153a8 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -873,19 +873,20 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 // Sets the current palette.
 ILAPI void ILAPIENTRY ilSetPal(ILpal *Pal)
 {
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte *Palette;
 
 	if (Pal->Palette && Pal->PalSize && Pal->PalType != IL_PAL_NONE) {
-		iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-		if (iCurImage->Pal.Palette == NULL)
+		Palette = (ILubyte*)ialloc(Pal->PalSize);
+		if (Palette == NULL)
 			return;
-		memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
+		memcpy(Palette, Pal->Palette, Pal->PalSize);
+		ifree(iCurImage->Pal.Palette);
+		iCurImage->Pal.Palette = Palette;
 		iCurImage->Pal.PalSize = Pal->PalSize;
 		iCurImage->Pal.PalType = Pal->PalType;
 	}
 	else {
+		ifree(iCurImage->Pal.Palette);
 		iCurImage->Pal.Palette = NULL;
 		iCurImage->Pal.PalSize = 0;
 		iCurImage->Pal.PalType = IL_PAL_NONE;
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..e011af9 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -400,23 +400,27 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
-		ifree(iCurImage->Pal.Palette);
-	}
+	ILubyte *Palette;
 
-	iCurImage->Pal.PalSize = Size;
-	iCurImage->Pal.PalType = Type;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return;
-
-	if (Pal != NULL) {
-		memcpy(iCurImage->Pal.Palette, Pal, Size);
 	}
-	else {
+	if (Pal == NULL) {
 		ilSetError(IL_INVALID_PARAM);
+		return;
 	}
-	
+
+	Palette = (ILubyte*)ialloc(Size);
+	if (Palette == NULL)
+		return;
+	memcpy(Palette, Pal, Size);
+
+	ifree(iCurImage->Pal.Palette);
+	iCurImage->Pal.PalSize = Size;
+	iCurImage->Pal.PalType = Type;
+	iCurImage->Pal.Palette = Palette;
+
 	return;
 }
 
-- 
2.43.0


From 8e2e34bbaff443e2b7c46f75fb1b343b9124fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 49/71] fix: image names: a name bound again is no longer
 handed out by ilGenImages, failures and huge names keep the table intact

---
 DevIL/src-IL/src/il_stack.cpp | 97 +++++++++++++++++++++++++----------
 1 file changed, 71 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..8f147ed 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -31,7 +31,7 @@ typedef struct iFree
 } iFree;
 
 
-static ILboolean iEnlargeStack();
+static ILboolean iEnlargeStack(ILuint Name);
 
 static ILuint		StackSize = 0;
 static ILuint		LastUsed = 0;
@@ -49,6 +49,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 {
 	ILsizei	Index = 0;
 	iFree	*TempFree = FreeNames;
+	ILimage	*Image;
 
 	if (Num < 1 || Images == NULL) {
 		ilSetError(IL_INVALID_VALUE);
@@ -56,24 +57,36 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 	}
 
 	// No images have been generated yet, so create the image stack.
+	for (Index = 0; Index < Num; Index++)
+		Images[Index] = 0;  // Stays 0 if no image can be generated.
 	if (ImageStack == NULL)
-		if (!iEnlargeStack())
+		if (!iEnlargeStack(0))
 			return;
+	if (LastUsed == 0)  // Name 0 is the default image.
+		LastUsed = 1;
 
+	Index = 0;
 	do {
+		// Must be all 1's instead of 0's, because some functions would divide by 0.
+		Image = ilNewImage(1, 1, 1, 1, 1);
+		if (Image == NULL)
+			return;
+
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
                         TempFree = (iFree*)FreeNames->Next;
                         Images[Index] = FreeNames->Name;
-                        ImageStack[FreeNames->Name] = ilNewImage(1, 1, 1, 1, 1);
+                        ImageStack[FreeNames->Name] = Image;
                         ifree(FreeNames);
                         FreeNames = TempFree;
 		} else {
-                        if (LastUsed >= StackSize)
-				if (!iEnlargeStack())
+                        if (LastUsed >= StackSize) {
+				if (!iEnlargeStack(LastUsed)) {
+					ilCloseImage(Image);
 					return;
+				}
+			}
 			Images[Index] = LastUsed;
-			// Must be all 1's instead of 0's, because some functions would divide by 0.
-			ImageStack[LastUsed] = ilNewImage(1, 1, 1, 1, 1);
+			ImageStack[LastUsed] = Image;
 			LastUsed++;
 		}
 	} while (++Index < Num);
@@ -83,29 +96,44 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 
 ILuint ILAPIENTRY ilGenImage()
 {
-    ILuint i;
+    ILuint i = 0;
     ilGenImages(1,&i);
     return i;
 }
 
-//! Makes Image the current active image - similar to glBindTexture().
-void ILAPIENTRY ilBindImage(ILuint Image)
+// Removes Name from the list of deleted names, because it is in use again.
+static void iUnfreeName(ILuint Name)
 {
-	if (ImageStack == NULL || StackSize == 0) {
-		if (!iEnlargeStack()) {
-			return;
-		}
+	iFree	*Temp = FreeNames, *Prev = NULL;
+
+	while (Temp != NULL && Temp->Name != Name) {
+		Prev = Temp;
+		Temp = (iFree*)Temp->Next;
 	}
+	if (Temp == NULL)
+		return;
+	if (Prev == NULL)
+		FreeNames = (iFree*)Temp->Next;
+	else
+		Prev->Next = Temp->Next;
+	ifree(Temp);
+}
 
+//! Makes Image the current active image - similar to glBindTexture().
+void ILAPIENTRY ilBindImage(ILuint Image)
+{
 	// If the user requests a high image name.
-	while (Image >= StackSize) {
-		if (!iEnlargeStack()) {
+	if (ImageStack == NULL || Image >= StackSize) {
+		if (!iEnlargeStack(Image)) {
 			return;
 		}
 	}
 
 	if (ImageStack[Image] == NULL) {
 		ImageStack[Image] = ilNewImage(1, 1, 1, 1, 1);
+		if (ImageStack[Image] == NULL)
+			return;
+		iUnfreeName(Image);
 		if (Image >= LastUsed) // >= ?
 			LastUsed = Image + 1;
 	}
@@ -160,7 +188,7 @@ void ILAPIENTRY ilDeleteImages(ILsizei Num, const ILuint *Images)
 			// Add to head of list - works for empty and non-empty lists
 			Temp = (iFree*)ialloc(sizeof(iFree));
 			if (!Temp) {
-				return;
+				continue;  // Deleted, but the name cannot be reused.
 			}
 			Temp->Name = Images[Index];
 			Temp->Next = FreeNames;
@@ -222,7 +250,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
@@ -577,9 +605,14 @@ void ilShutDownInternal()
 	ilShutDown();
 }
 
-// Internal function to enlarge the image stack by I_STACK_INCREMENT members.
-ILboolean iEnlargeStack()
+// Internal function to enlarge the image stack by I_STACK_INCREMENT members,
+//	or by as many as are needed to hold Name.
+ILboolean iEnlargeStack(ILuint Name)
 {
+	ILimage	**NewStack;
+	ILuint	NewSize;
+
+
 	// 02-05-2001:  Moved from ilGenImages().
 	// Puts the cleanup function on the exit handler once.
 	if (!OnExit) {
@@ -592,10 +625,19 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	if (Name >= 0x7FFFFFFF / sizeof(ILimage*) - I_STACK_INCREMENT) {
+		ilSetError(IL_INVALID_VALUE);
 		return IL_FALSE;
 	}
-	StackSize += I_STACK_INCREMENT;
+	if (Name < StackSize)
+		Name = StackSize;
+	NewSize = (Name / I_STACK_INCREMENT + 1) * I_STACK_INCREMENT;
+	NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), NewSize * sizeof(ILimage*));
+	if (NewStack == NULL) {
+		return IL_FALSE;
+	}
+	ImageStack = NewStack;
+	StackSize = NewSize;
 	return IL_TRUE;
 }
 
@@ -675,10 +717,11 @@ void ILAPIENTRY ilShutDown()
 void iSetImage0()
 {
 	if (ImageStack == NULL)
-		if (!iEnlargeStack())
+		if (!iEnlargeStack(0))
 			return;
 
-	LastUsed = 1;
+	if (LastUsed < 1)
+		LastUsed = 1;
 	CurName = 0;
 	ParentImage = IL_TRUE;
 	if (!ImageStack[0])
@@ -693,15 +736,17 @@ void iSetImage0()
 ILAPI void ILAPIENTRY iBindImageTemp()
 {
 	if (ImageStack == NULL || StackSize <= 1)
-		if (!iEnlargeStack())
+		if (!iEnlargeStack(1))
 			return;
 
 	if (LastUsed < 2)
 		LastUsed = 2;
 	CurName = 1;
 	ParentImage = IL_TRUE;
-	if (!ImageStack[1])
+	if (!ImageStack[1]) {
 		ImageStack[1] = ilNewImage(1, 1, 1, 1, 1);
+		iUnfreeName(1);
+	}
 	iCurImage = ImageStack[1];
 
 	return;
-- 
2.43.0


From c6576ad66cd43bd9741eaa9cdf199befc0eb8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:38 +0000
Subject: [PATCH 50/71] fix: ilCreateSubImage: mipmaps and layers are chained
 as mipmaps and layers

---
 DevIL/src-IL/src/il_stack.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 8f147ed..d55e619 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -485,7 +485,7 @@ ILboolean ILAPIENTRY ilActiveLayer(ILuint Number)
 
 ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 {
-	ILimage	*SubImage;
+	ILimage	*SubImage, *NewImage;
 	ILuint	Count ;  // Create one before we go in the loop.
 
 	if (iCurImage == NULL) {
@@ -529,10 +529,16 @@ ILuint ILAPIENTRY ilCreateSubImage(ILenum Type, ILuint Num)
 	}
 
 	for (Count = 1; Count < Num; Count++) {
-		SubImage->Next = ilNewImage(1, 1, 1, 1, 1);
-		SubImage = SubImage->Next;
-		if (SubImage == NULL)
+		NewImage = ilNewImage(1, 1, 1, 1, 1);
+		if (NewImage == NULL)
 			return Count;
+		if (Type == IL_SUB_NEXT)
+			SubImage->Next = NewImage;
+		else if (Type == IL_SUB_MIPMAP)
+			SubImage->Mipmaps = NewImage;
+		else
+			SubImage->Layers = NewImage;
+		SubImage = NewImage;
 	}
 
 	return Count;
-- 
2.43.0


From b8e6f6c0d6b380745bc72fad5dc5968b079caf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 51/71] fix: iluCrop: windows outside of the image, wide
 samples, more than one slice and palettes

---
 DevIL/src-ILU/src/ilu_manip.cpp | 107 +++++++++++++-------------------
 1 file changed, 43 insertions(+), 64 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..f5e4a66 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -5,10 +5,34 @@
 #include <limits.h>
 
 
-ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
-	ILuint	x, y, c, OldBps;
-	ILubyte	*Data;
-	ILenum	Origin;
+// Gives Image the dimensions and the pixels of New and closes New.
+static void iTakePixels(ILimage *Image, ILimage *New)
+{
+	ifree(Image->Data);
+	Image->Data        = New->Data;
+	Image->Width       = New->Width;
+	Image->Height      = New->Height;
+	Image->Depth       = New->Depth;
+	Image->Bps         = New->Bps;
+	Image->SizeOfPlane = New->SizeOfPlane;
+	Image->SizeOfData  = New->SizeOfData;
+	New->Data = NULL;
+	ilCloseImage(New);
+
+	// These belong to the old pixels.
+	ilCloseImage(Image->Mipmaps);
+	Image->Mipmaps = NULL;
+	ifree(Image->DxtcData);
+	Image->DxtcData = NULL;
+	Image->DxtcFormat = IL_DXT_NO_COMP;
+	Image->DxtcSize = 0;
+}
+
+
+ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+{
+	ILuint	y, z, PixSize;
+	ILimage	*New;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -16,88 +40,43 @@ ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height) {
+	// The window has to be inside of the image.
+	if (Width == 0 || Width > iluCurImage->Width || XOff > iluCurImage->Width - Width ||
+		Height == 0 || Height > iluCurImage->Height || YOff > iluCurImage->Height - Height ||
+		Depth == 0 || Depth > iluCurImage->Depth || ZOff > iluCurImage->Depth - Depth) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
+	New = ilNewImageFull(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
+	if (New == NULL) {
 		return IL_FALSE;
 	}
 
-	OldBps = iluCurImage->Bps;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
-		return IL_FALSE;
-	}
-	iluCurImage->Origin = Origin;
-
-	// @TODO:  Optimize!  (Especially XOff * iluCurImage->Bpp...get rid of it!)
-	for (y = 0; y < iluCurImage->Height; y++) {
-		for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-			for (c = 0; c < iluCurImage->Bpp; c++) {
-				iluCurImage->Data[y * iluCurImage->Bps + x + c] = 
-					Data[(y + YOff) * OldBps + x + XOff * iluCurImage->Bpp + c];
-			}
+	PixSize = iluCurImage->Bpp * iluCurImage->Bpc;
+	for (z = 0; z < Depth; z++) {
+		for (y = 0; y < Height; y++) {
+			memcpy(New->Data + z * New->SizeOfPlane + y * New->Bps,
+				iluCurImage->Data + (z + ZOff) * iluCurImage->SizeOfPlane + (y + YOff) * iluCurImage->Bps + XOff * PixSize,
+				New->Bps);
 		}
 	}
 
-	ifree(Data);
+	iTakePixels(iluCurImage, New);
 
 	return IL_TRUE;
 }
 
 
-ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint Height, ILuint Depth)
+ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height)
 {
-	ILuint	x, y, z, c, OldBps, OldPlane;
-	ILubyte	*Data;
-	ILenum	Origin;
-
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	// Uh-oh, what about 0 dimensions?!
-	if (Width > iluCurImage->Width || Height > iluCurImage->Height || Depth > iluCurImage->Depth) {
-		ilSetError(ILU_ILLEGAL_OPERATION);
-		return IL_FALSE;
-	}
-
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
-		return IL_FALSE;
-	}
-
-	OldBps = iluCurImage->Bps;
-	OldPlane = iluCurImage->SizeOfPlane;
-	Origin = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
-	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		ifree(Data);
-	}
-	iluCurImage->Origin = Origin;
-
-	for (z = 0; z < iluCurImage->Depth; z++) {
-		for (y = 0; y < iluCurImage->Height; y++) {
-			for (x = 0; x < iluCurImage->Bps; x += iluCurImage->Bpp) {
-				for (c = 0; c < iluCurImage->Bpp; c++) {
-					iluCurImage->Data[z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps + x + c] = 
-						Data[(z + ZOff) * OldPlane + (y + YOff) * OldBps + (x + XOff) + c];
-				}
-			}
-		}
-	}
-
-	ifree(Data);
-
-	return IL_TRUE;
+	return iluCrop3D(XOff, YOff, 0, Width, Height, iluCurImage->Depth);
 }
 
 
-- 
2.43.0


From cfc13dc17c9e45d723542c8f892299c69636aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:02 +0000
Subject: [PATCH 52/71] fix: iluEnlargeCanvas: wide samples, palettes, origin
 mode and failing allocations

---
 DevIL/src-ILU/src/ilu_manip.cpp | 53 +++++++++++----------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index f5e4a66..0e50d45 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -91,9 +91,8 @@ ILboolean ILAPIENTRY iluCrop(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width
 //! Enlarges the canvas
 ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 {
-	ILubyte	*Data/*, Clear[4]*/;
-	ILuint	x, y, z, OldBps, OldH, OldD, OldPlane, AddX, AddY;
-	ILenum	Origin;
+	ILuint	y, z, AddX, AddY;
+	ILimage	*New;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -164,47 +163,29 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 		}
 	}
 
-	AddX *= iluCurImage->Bpp;
+	AddX *= iluCurImage->Bpp * iluCurImage->Bpc;
 
-	Data = (ILubyte*)ialloc(iluCurImage->SizeOfData);
-	if (Data == NULL) {
+	New = ilNewImageFull(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
+	if (New == NULL) {
 		return IL_FALSE;
 	}
-
-	// Preserve old data.
-	OldPlane = iluCurImage->SizeOfPlane;
-	OldBps   = iluCurImage->Bps;
-	OldH     = iluCurImage->Height;
-	OldD     = iluCurImage->Depth;
-	Origin   = iluCurImage->Origin;
-	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
-
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
-	iluCurImage->Origin = Origin;
-
-	ilClearImage();
-	/*ilGetClear(Clear);
-	if (iluCurImage->Bpp == 1) {
-		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
+	if (New->Format == IL_COLOUR_INDEX) {  // Keeps the palette.
+		imemclear(New->Data, New->SizeOfData);
+	}
+	else if (!ilClearImage_(New)) {
+		ilCloseImage(New);
+		return IL_FALSE;
 	}
-	else {
-		for (x = 0; x < iluCurImage->SizeOfData; x += iluCurImage->Bpp) {
-			for (y = 0; y < iluCurImage->Bpp; y++) {
-				iluCurImage->Data[y] = Clear[y];
-			}
-		}
-	}*/
 
-	for (z = 0; z < OldD; z++) {
-		for (y = 0; y < OldH; y++) {
-			for (x = 0; x < OldBps; x++) {
-				iluCurImage->Data[z * iluCurImage->SizeOfPlane + (y + AddY) * iluCurImage->Bps + x + AddX] =
-					Data[z * OldPlane + y * OldBps + x];
-			}
+	for (z = 0; z < iluCurImage->Depth; z++) {
+		for (y = 0; y < iluCurImage->Height; y++) {
+			memcpy(New->Data + z * New->SizeOfPlane + (y + AddY) * New->Bps + AddX,
+				iluCurImage->Data + z * iluCurImage->SizeOfPlane + y * iluCurImage->Bps,
+				iluCurImage->Bps);
 		}
 	}
 
-	ifree(Data);
+	iTakePixels(iluCurImage, New);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 7278c4101880dfb6becfa7809411a8612650b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 53/71] fix: iluInvertAlpha left the last pixels as they were

---
 DevIL/src-ILU/src/ilu_manip.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 0e50d45..49aac37 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -256,33 +256,33 @@ ILboolean ILAPIENTRY iluInvertAlpha() {
 		case IL_BYTE:
 		case IL_UNSIGNED_BYTE:
 			Data += (Bpp - 1);
-			for( i = Bpp - 1; i < NumPix; i++, Data += Bpp )
+			for( i = 0; i < NumPix; i++, Data += Bpp )
 				*(Data) = ~*(Data);
 			break;
 
 		case IL_SHORT:
 		case IL_UNSIGNED_SHORT:
 			ShortPtr = ((ILushort*)Data) + Bpp-1;	
-			for (i = Bpp - 1; i < NumPix; i++, ShortPtr += Bpp)
+			for (i = 0; i < NumPix; i++, ShortPtr += Bpp)
 				*(ShortPtr) = ~*(ShortPtr);
 			break;
 
 		case IL_INT:
 		case IL_UNSIGNED_INT:
 			IntPtr = ((ILuint*)Data) + Bpp-1;
-			for (i = Bpp - 1; i < NumPix; i++, IntPtr += Bpp)
+			for (i = 0; i < NumPix; i++, IntPtr += Bpp)
 				*(IntPtr) = ~*(IntPtr);
 			break;
 
 		case IL_FLOAT:
 			FltPtr = ((ILfloat*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, FltPtr += Bpp)
+			for (i = 0; i < NumPix; i++, FltPtr += Bpp)
 				*(FltPtr) = 1.0f - *(FltPtr);
 			break;
 
 		case IL_DOUBLE:
 			DblPtr = ((ILdouble*)Data) + Bpp - 1;
-			for (i = Bpp - 1; i < NumPix; i++, DblPtr += Bpp)
+			for (i = 0; i < NumPix; i++, DblPtr += Bpp)
 				*(DblPtr) = 1.0f - *(DblPtr);
 			break;
 	}
-- 
2.43.0


From 8b437e4dfef43f48676a478bec27569e51b27a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 54/71] fix: iluNegative: a region does not apply to a palette

---
 DevIL/src-ILU/src/ilu_manip.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 49aac37..3815e58 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -318,7 +318,10 @@ ILboolean ILAPIENTRY iluNegative()
 		i = iluCurImage->SizeOfData;
 	}
 
-	RegionMask = iScanFill();
+	if (iluCurImage->Format == IL_COLOUR_INDEX)
+		RegionMask = NULL;  // The whole palette is inverted.
+	else
+		RegionMask = iScanFill();
 	
 	// @TODO:  Optimize this some.
 
-- 
2.43.0


From 4d90f18cc5176f3b966a96cb19ec75309a6ec34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 55/71] fix: iluSwapColours looked at the image of the previous
 ILU call

---
 DevIL/src-ILU/src/ilu_manip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 3815e58..12e2cf6 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -450,8 +450,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
-- 
2.43.0


From 2619a20b77838f6bb2eee49533a659b616892379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 56/71] fix: ilRleCompressLine: run packets had one byte too
 many

---
 DevIL/src-IL/src/il_rle.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..edaa46b 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -101,7 +101,6 @@ ILboolean ilRleCompressLine(ILubyte *p, ILuint n, ILubyte bpp,
 			n -= SameCount;
 			RLEBufSize += bpp + 1;
 			p += (SameCount - 1) * bpp;
-			*q++ = *p++;
 			switch(bpp) {
 				case 4:	*q++ = *p++;
 				case 3: *q++ = *p++;
-- 
2.43.0


From 20ad520eddb7174501e53cfcb7ddb1b8be97ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 57/71] fix: Targa saving: room for the worst case of
 run-length encoding

---
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..ba5f731 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -757,7 +757,8 @@ ILboolean iSaveTargaInternal()
 	if (!Compress)
 		iwrite(TempData, sizeof(ILubyte), TempImage->SizeOfData);
 	else {
-		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
+		// At most one packet header for every pixel.
+		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / TempImage->Bpp + 1);
 		if (Rle == NULL) {
 			ifree(AuthName);
 			ifree(AuthComment);
-- 
2.43.0


From d8cd6c4028278d0eb35c9ae703beb10a047810dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 58/71] fix: ilRegisterLoad, ilRegisterSave: the first
 registered extension could be registered twice, failing allocations left a
 broken entry

---
 DevIL/src-IL/src/il_register.cpp | 80 ++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index e011af9..cfe84cd 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -24,68 +24,80 @@ iFormatS *SaveProcs = NULL;
 
 
 ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
-	iFormatL *TempNode, *NewNode;
+	iFormatL *TempNode, *LastNode, *NewNode;
 
-	TempNode = LoadProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	if (Ext == NULL || Load == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	LastNode = NULL;
+	for (TempNode = LoadProcs; TempNode != NULL; TempNode = TempNode->Next) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		LastNode = TempNode;
 	}
 
 	NewNode = (iFormatL*)ialloc(sizeof(iFormatL));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
+	NewNode->Load = Load;
+	NewNode->Next = NULL;
 
-	if (LoadProcs == NULL) {
+	if (LastNode == NULL) {
 		LoadProcs = NewNode;
 	}
 	else {
-		TempNode->Next = NewNode;
+		LastNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
-	NewNode->Load = Load;
-	NewNode->Next = NULL;
-
 	return IL_TRUE;
 }
 
 
 ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 {
-	iFormatS *TempNode, *NewNode;
+	iFormatS *TempNode, *LastNode, *NewNode;
 
-	TempNode = SaveProcs;
-	if (TempNode != NULL) {
-		while (TempNode->Next != NULL) {
-			TempNode = TempNode->Next;
-			if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
-				return IL_TRUE;
-			}
+	if (Ext == NULL || Save == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
+	LastNode = NULL;
+	for (TempNode = SaveProcs; TempNode != NULL; TempNode = TempNode->Next) {
+		if (!iStrCmp(TempNode->Ext, Ext)) {  // already registered
+			return IL_TRUE;
 		}
+		LastNode = TempNode;
 	}
 
-	NewNode = (iFormatS*)ialloc(sizeof(iFormatL));
+	NewNode = (iFormatS*)ialloc(sizeof(iFormatS));
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
+	NewNode->Save = Save;
+	NewNode->Next = NULL;
 
-	if (SaveProcs == NULL) {
+	if (LastNode == NULL) {
 		SaveProcs = NewNode;
 	}
 	else {
-		TempNode->Next = NewNode;
+		LastNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
-	NewNode->Save = Save;
-	NewNode->Next = NULL;
-
 	return IL_TRUE;
 }
 
@@ -95,6 +107,11 @@ ILboolean ILAPIENTRY ilRemoveLoad(ILconst_string Ext)
 {
 	iFormatL *TempNode = LoadProcs, *PrevNode = NULL;
 
+	if (Ext == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	while (TempNode != NULL) {
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			if (PrevNode == NULL) {  // first node in the list
@@ -124,6 +141,11 @@ ILboolean ILAPIENTRY ilRemoveSave(ILconst_string Ext)
 {
 	iFormatS *TempNode = SaveProcs, *PrevNode = NULL;
 
+	if (Ext == NULL) {
+		ilSetError(IL_INVALID_PARAM);
+		return IL_FALSE;
+	}
+
 	while (TempNode != NULL) {
 		if (!iStrCmp(Ext, TempNode->Ext)) {
 			if (PrevNode == NULL) {  // first node in the list
-- 
2.43.0


From 0ccaa7a9b48d3e6f5d972e1cfc4d309e83d71b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 59/71] fix: registering sub-images: mipmaps are chained as
 mipmaps, a failing allocation leaves no freed images behind

---
 DevIL/src-IL/src/il_register.cpp | 36 +++++++++++---------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index cfe84cd..d3a8900 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -289,7 +289,7 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
@@ -308,12 +308,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -326,7 +322,7 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
@@ -342,18 +338,14 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 	Num--;
 
 	while (Num) {
-		Next->Next = ilNewImage(1, 1, 1, 1, 1);
-		if (Next->Next == NULL) {
+		Next->Mipmaps = ilNewImage(1, 1, 1, 1, 1);
+		if (Next->Mipmaps == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
-		Next = Next->Next;
+		Next = Next->Mipmaps;
 		Num--;
 	}
 
@@ -363,7 +355,7 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
@@ -382,12 +374,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
-- 
2.43.0


From e5b0d6ca66f36baf385916abdf2ed0dff0434381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 60/71] fix: the position of a file that is read from its
 middle was reported from the beginning of the file

iSeekRFile adds the start of the stream to IL_SEEK_SET offsets, iTellRFile
did not take it off: checking the type of a stream that did not start at
position 0 moved the stream.
---
 DevIL/src-IL/src/il_files.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index e87fbd1..49b9789 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -310,7 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	ReadFileStart = TellRProc(File);
 }
 
 
@@ -644,7 +644,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	return TellRProc(FileRead) - ReadFileStart;  // Counts from the same position as iSeekRFile
 }
 
 
-- 
2.43.0


From cff4c5600cce3330fe82eba7313277bd4f806f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 61/71] fix: ilTypeFromExt did not know the documented
 extensions .dcx and .h

---
 DevIL/src-IL/src/il_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..31ad808 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -67,6 +67,10 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 	else if (!iStrCmp(Ext, IL_TEXT("jp2")) || !iStrCmp(Ext, IL_TEXT("jpx")) ||
 		!iStrCmp(Ext, IL_TEXT("j2k")) || !iStrCmp(Ext, IL_TEXT("j2c")))
 		Type = IL_JP2;
+	else if (!iStrCmp(Ext, IL_TEXT("h")))
+		Type = IL_CHEAD;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("dds")))
 		Type = IL_DDS;
 	else if (!iStrCmp(Ext, IL_TEXT("png")))
-- 
2.43.0


From 6857808f62101cedd43380bc1af78c67e1c275a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 62/71] fix: the blue end points of DXT1 blocks took their low
 bits from red

---
 DevIL/src-IL/src/il_dds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..edcde40 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1250,7 +1250,7 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 
 	Out->r = r << 3 | r >> 2;
 	Out->g = g << 2 | g >> 3;
-	Out->b = b << 3 | r >> 2;
+	Out->b = b << 3 | b >> 2;
 }
 
 
-- 
2.43.0


From 0f4d5b27184505c7273c0e8336209ae3025b6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 63/71] fix: 3Dc and ATI1N volumes whose height is no multiple
 of 4 were decoded past the end

---
 DevIL/src-IL/src/il_dds.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index edcde40..a948fb0 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1485,8 +1485,8 @@ ILboolean Decompress3Dc()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				Temp2 = Temp + 8;
@@ -1576,8 +1576,8 @@ ILboolean DecompressAti1n()
 		return IL_FALSE;
 
 	Temp = CompData;
-	Offset = 0;
 	for (z = 0; z < Depth; z++) {
+		Offset = z * Image->SizeOfPlane;
 		for (y = 0; y < Height; y += 4) {
 			for (x = 0; x < Width; x += 4) {
 				//Read palette
-- 
2.43.0


From 6af99cea4cd5954453d2473a1eed0f5a21182639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 64/71] fix: the transparent texels of DXT1 blocks were
 coloured instead of black

---
 DevIL/src-IL/src/il_dds.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a948fb0..23c3211 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2744,9 +2744,9 @@ ILboolean DecompressDXT1(ILimage *lImage, ILubyte *lCompData)
 					colours[2].r = (colours[0].r + colours[1].r) / 2;
 					//colours[2].a = 0xFF;
 
-					colours[3].b = (colours[0].b + 2 * colours[1].b + 1) / 3;
-					colours[3].g = (colours[0].g + 2 * colours[1].g + 1) / 3;
-					colours[3].r = (colours[0].r + 2 * colours[1].r + 1) / 3;
+					colours[3].b = 0x00;
+					colours[3].g = 0x00;
+					colours[3].r = 0x00;
 					colours[3].a = 0x00;
 				}
 
-- 
2.43.0


From 20cf1b2be2500120925bdbff3e72c82aa46133c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 65/71] fix: DXT4 images never loaded

---
 DevIL/src-IL/src/il_dds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 23c3211..cbd5a39 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1351,7 +1351,7 @@ ILboolean DecompressDXT4(ILimage *lImage, ILubyte *lCompData)
 		return IL_FALSE;
 	CorrectPreMult();
 
-	return IL_FALSE;
+	return IL_TRUE;
 }
 
 
-- 
2.43.0


From a68fd48647d2be8f91356ed5b829743c0f57e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:09 +0000
Subject: [PATCH 66/71] fix: the green end points of DXT blocks were expanded
 with a bit too many

---
 DevIL/src-IL/src/il_dds.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index cbd5a39..d7ee2fb 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -1231,11 +1231,11 @@ void DxtcReadColors(const ILubyte* Data, Color8888* Out)
 	r1 = (Data[3] & 0xF8) >> 3;
 
 	Out[0].r = r0 << 3 | r0 >> 2;
-	Out[0].g = g0 << 2 | g0 >> 3;
+	Out[0].g = g0 << 2 | g0 >> 4;
 	Out[0].b = b0 << 3 | b0 >> 2;
 
 	Out[1].r = r1 << 3 | r1 >> 2;
-	Out[1].g = g1 << 2 | g1 >> 3;
+	Out[1].g = g1 << 2 | g1 >> 4;
 	Out[1].b = b1 << 3 | b1 >> 2;
 }
 
@@ -1249,7 +1249,7 @@ void DxtcReadColor(ILushort Data, Color8888* Out)
 	r = (Data & 0xF800) >> 11;
 
 	Out->r = r << 3 | r >> 2;
-	Out->g = g << 2 | g >> 3;
+	Out->g = g << 2 | g >> 4;
 	Out->b = b << 3 | b >> 2;
 }
 
-- 
2.43.0


From e79dfa5bd8e6ca5f5dd076ff5de21c37d4f9f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:16 +0000
Subject: [PATCH 67/71] fix: saving a Targa to memory reported a size relative
 to the previous output

---
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index ba5f731..e1808fe 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,8 +580,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From c524d4ca529d235c66c68a3cf8294a13e92b7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:52 +0000
Subject: [PATCH 68/71] fix: the predicted size of a Targa was not the size
 that is written

---
 DevIL/src-IL/src/il_size.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..2962131 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -158,8 +158,7 @@ ILuint ilDetermineSize(ILenum Type)
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
-- 
2.43.0


From 296765630420ddbd4171dbb4cf1c2e104218a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:52 +0000
Subject: [PATCH 69/71] fix: the size reported for a run-length encoded SGI
 ended at its tables

---
 DevIL/src-IL/src/il_sgi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..7f62b53 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -748,6 +748,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(DataOff, IL_SEEK_SET);  // Behind the image again
 
 	ifree(ScanLine);
 	ifree(CompLine);
-- 
2.43.0


From 0abf73e5d2c49c91486c90e25121052a3a9b4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 70/71] fix: images with an upper left origin were saved upside
 down as a Targa

---
 DevIL/src-IL/src/il_targa.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index e1808fe..7a14b38 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -742,8 +742,7 @@ ILboolean iSaveTargaInternal()
 	Temp = 0;
 	if (iCurImage->Bpp > 3)
 		Temp = 8;
-	if (TempImage->Origin == IL_ORIGIN_UPPER_LEFT)
-		Temp |= 0x20; //set 5th bit
+	// The rows are always written from the bottom up, so the direction bits stay 0.
 	iwrite(&Temp, sizeof(ILubyte), 1);
 	iwrite(ID, sizeof(char), IDLen);
 	ifree(ID);
-- 
2.43.0


From 52265a752b6aacf7bca196b960fa035fc713261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 71/71] fix: a Targa that could not be read was reported as
 loaded

---
 DevIL/src-IL/src/il_targa.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 7a14b38..fd0f884 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -218,6 +218,9 @@ ILboolean iLoadTargaInternal()
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 	}
+
+	if (!bTarga)
+		return IL_FALSE;
 	
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
-- 
2.43.0

