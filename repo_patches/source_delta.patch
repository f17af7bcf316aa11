From 078abba2ab566f26615ad200dbc12110cd315fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 01/81] fix: close the palette file when a .plt or Halo .pal
 header is rejected

---
 DevIL/src-IL/src/il_pal.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index fd4a510..a80ffb7 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -315,8 +315,10 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1)
+	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
+		icloser(HaloFile);
 		return IL_FALSE;
+	}
 
 	if (HaloHead.Id != 'A' + ('H' << 8) || HaloHead.Version != 0xe3) {
 		icloser(HaloFile);
@@ -518,6 +520,7 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 
 	iCurImage->Pal.PalSize = GetLittleUInt();
 	if (iCurImage->Pal.PalSize == 0) {
+		icloser(PltFile);
 		ilSetError(IL_INVALID_FILE_HEADER);
 		return IL_FALSE;
 	}
-- 
2.43.0


From 7f893e61147613712cf35c93fb63402f675ff4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 02/81] fix: DXTC calls and .dds saving without a current
 image, ilCompressDXT compressing the wrong image

---
 DevIL/src-IL/src/il_dds-save.cpp | 53 +++++++++++++++++++++-----------
 DevIL/src-IL/src/il_dds.cpp      | 40 +++++++++++++++++++-----
 2 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index f17862f..94aac7d 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -141,6 +141,11 @@ ILboolean iSaveDdsInternal()
 	ILint	CubeTable[6] = { 0 };
 	ILuint	CubeFlags;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	CubeFlags = GetCubemapInfo(iCurImage, CubeTable);
 
 	image = ilGetInteger(IL_CUR_IMAGE);
@@ -315,6 +320,11 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	ILuint	retVal;
 	ILint	BlockNum;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
 	if (Buffer == NULL) {  // Return the number that will be written with a subsequent call.
 		BlockNum = ((iCurImage->Width + 3)/4) * ((iCurImage->Height + 3)/4)
 					* iCurImage->Depth;
@@ -386,7 +396,7 @@ ILushort *CompressTo565(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGRA, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -394,7 +404,7 @@ ILushort *CompressTo565(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -461,7 +471,7 @@ ILushort *CompressTo565(ILimage *Image)
 			break;
 
 		case IL_ALPHA:
-			memset(Data, 0, iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+			memset(Data, 0, Image->Width * Image->Height * 2 * Image->Depth);
 			break;
 	}
 
@@ -479,7 +489,7 @@ ILubyte *CompressTo88(ILimage *Image)
 	ILuint		i, j;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return NULL;
 	}
@@ -487,7 +497,7 @@ ILubyte *CompressTo88(ILimage *Image)
 		TempImage = Image;
 	}
 
-	Data = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
+	Data = (ILubyte*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
 	if (Data == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -550,7 +560,7 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 	*r = NULL;
 
 	if ((Image->Type != IL_UNSIGNED_BYTE && Image->Type != IL_BYTE) || Image->Format == IL_COLOUR_INDEX) {
-		TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
+		TempImage = iConvertImage(Image, IL_BGR, IL_UNSIGNED_BYTE);  // @TODO: Needs to be BGRA.
 		if (TempImage == NULL)
 			return;
 	}
@@ -558,8 +568,8 @@ void CompressToRXGB(ILimage *Image, ILushort** xgb, ILubyte** r)
 		TempImage = Image;
 	}
 
-	*xgb = (ILushort*)ialloc(iCurImage->Width * iCurImage->Height * 2 * iCurImage->Depth);
-	*r = (ILubyte*)ialloc(iCurImage->Width * iCurImage->Height * iCurImage->Depth);
+	*xgb = (ILushort*)ialloc(Image->Width * Image->Height * 2 * Image->Depth);
+	*r = (ILubyte*)ialloc(Image->Width * Image->Height * Image->Depth);
 	if (*xgb == NULL || *r == NULL) {
 		if (TempImage != Image)
 			ilCloseImage(TempImage);
@@ -672,7 +682,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 		ILimage *TempImage;
 
 		if (Image->Bpp != 1) {
-			TempImage = iConvertImage(iCurImage, IL_LUMINANCE, IL_UNSIGNED_BYTE);
+			TempImage = iConvertImage(Image, IL_LUMINANCE, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return 0;
 		}
@@ -1278,6 +1288,8 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 #endif//IL_USE_DXTC_SQUISH
 
 	TempImage = (ILimage*)ialloc(sizeof(ILimage));
+	if (TempImage == NULL)
+		return NULL;
 	memset(TempImage, 0, sizeof(ILimage));
 	TempImage->Width = Width;
 	TempImage->Height = Height;
@@ -1286,23 +1298,28 @@ ILAPI ILubyte* ILAPIENTRY ilCompressDXT(ILubyte *Data, ILuint Width, ILuint Heig
 	TempImage->Format = IL_BGRA;
 	TempImage->Bpc = 1;  // Unsigned bytes only
 	TempImage->Type = IL_UNSIGNED_BYTE;
+	TempImage->Bps = Width * TempImage->Bpp * TempImage->Bpc;
 	TempImage->SizeOfPlane = TempImage->Bps * Height;
 	TempImage->SizeOfData  = TempImage->SizeOfPlane * Depth;
 	TempImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	TempImage->Data = Data;
 
+	// ilGetDXTCData works on the current image.
+	iCurImage = TempImage;
+	Buffer = NULL;
+
 	BuffSize = ilGetDXTCData(NULL, 0, DXTCFormat);
-	if (BuffSize == 0)
-		return NULL;
-	Buffer = (ILubyte*)ialloc(BuffSize);
-	if (Buffer == NULL)
-		return NULL;
+	if (BuffSize != 0)
+		Buffer = (ILubyte*)ialloc(BuffSize);
 
-	if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
-		ifree(Buffer);
-		return NULL;
+	if (Buffer != NULL) {
+		if (ilGetDXTCData(Buffer, BuffSize, DXTCFormat) != BuffSize) {
+			ifree(Buffer);
+			Buffer = NULL;
+		}
+		else
+			*DXTCSize = BuffSize;
 	}
-	*DXTCSize = BuffSize;
 
 	// Restore backup of iCurImage.
 	iCurImage = CurImage;
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index a1df617..8bead9b 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2167,10 +2167,17 @@ void ilFreeSurfaceDxtcData()
 void ilFreeImageDxtcData()
 {
 	ILint i, j;
-	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
+	ILuint ImgID;
+	ILint ImgCount;
 	ILint MipCount;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+	ImgID = ilGetInteger(IL_CUR_IMAGE);
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
+
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2222,6 +2229,8 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 
 	if (iCurImage->Data == NULL) {
 		iCurImage->Data = (ILubyte*)ialloc(iCurImage->SizeOfData);
+		if (iCurImage->Data == NULL)
+			return IL_FALSE;
 	}
 
 	Image = iCurImage;
@@ -2247,11 +2256,18 @@ ILAPI ILboolean ILAPIENTRY ilDxtcDataToSurface()
 ILAPI ILboolean ILAPIENTRY ilDxtcDataToImage()
 {
 	ILint i, j;
-	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
+	ILuint ImgID;
+	ILint ImgCount;
 	ILint MipCount;
 	ILboolean ret = IL_TRUE;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	ImgID = ilGetInteger(IL_CUR_IMAGE);
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
+
 	for(i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
@@ -2288,7 +2304,10 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 	if (Data == NULL)
 		return IL_FALSE;
             
-	ilGetDXTCData((void*)Data, Size, Format);
+	if (ilGetDXTCData((void*)Data, Size, Format) == 0) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 
 	//These have to be after the call to ilGetDXTCData()
 	iCurImage->DxtcData = Data;
@@ -2302,11 +2321,18 @@ ILAPI ILboolean ILAPIENTRY ilSurfaceToDxtcData(ILenum Format)
 ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 {
 	ILint i, j;
-	ILuint ImgID = ilGetInteger(IL_CUR_IMAGE);
-	ILint ImgCount = ilGetInteger(IL_NUM_IMAGES);
+	ILuint ImgID;
+	ILint ImgCount;
 	ILint MipCount;
 	ILboolean ret = IL_TRUE;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+	ImgID = ilGetInteger(IL_CUR_IMAGE);
+	ImgCount = ilGetInteger(IL_NUM_IMAGES);
+
 	for (i = 0; i <= ImgCount; ++i) {
 		ilBindImage(ImgID);
 		ilActiveImage(i);
-- 
2.43.0


From 11ea2ea7da7f1fff5d2b793f1df6de9856397796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 03/81] fix: report an error instead of dereferencing a missing
 current image

---
 DevIL/src-IL/src/il_devil.cpp    |  8 ++++++++
 DevIL/src-IL/src/il_pxr.cpp      |  9 +++++---
 DevIL/src-IL/src/il_register.cpp | 35 ++++++++++++++++++++++++++++++++
 DevIL/src-IL/src/il_targa.cpp    |  5 +++++
 DevIL/src-IL/src/il_vtf.cpp      |  5 +++++
 DevIL/src-IL/src/il_wbmp.cpp     |  5 +++++
 DevIL/src-ILU/src/ilu_scale.cpp  |  5 +++++
 7 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c9eeb5d..d08d7f7 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -719,8 +719,16 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 	ILuint	Width, Height, Depth;
 	ILuint	Dest;
 	
+	// Check before the source gets bound.
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	Dest = ilGetCurName();
 	ilBindImage(Source);
+	if (iCurImage == NULL)  // ilBindImage failed and has set the error.
+		return IL_FALSE;
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
 
diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index 6c49329..e451b09 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -95,13 +95,16 @@ ILboolean iLoadPxrInternal()
 	switch (Bpp)
 	{
 		case 0x08:
-			ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0E:
-			ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		case 0x0F:
-			ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			break;
 		default:
 			ilSetError(IL_INVALID_FILE_HEADER);
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 274674b..6867320 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -232,6 +232,11 @@ ILboolean iRegisterSave(ILconst_string FileName)
 
 void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Origin)
 	{
 		case IL_ORIGIN_LOWER_LEFT:
@@ -247,6 +252,11 @@ void ILAPIENTRY ilRegisterOrigin(ILenum Origin)
 
 void ILAPIENTRY ilRegisterFormat(ILenum Format)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Format)
 	{
 		case IL_COLOUR_INDEX:
@@ -269,6 +279,11 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
 	ILimage *Next, *Prev;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Faces);  // Close any current mipmaps.
 
@@ -306,6 +321,11 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
 	ILimage *Next, *Prev;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Mipmaps);  // Close any current mipmaps.
 
@@ -343,6 +363,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
 	ILimage *Next, *Prev;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	ilBindImage(ilGetCurName());  // Make sure the current image is actually bound.
 	ilCloseImage(iCurImage->Next);  // Close any current "next" images.
 
@@ -378,6 +403,11 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 
 void ILAPIENTRY ilRegisterType(ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	switch (Type)
 	{
 		case IL_BYTE:
@@ -400,6 +430,11 @@ void ILAPIENTRY ilRegisterType(ILenum Type)
 
 void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return;
+	}
+
 	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
 		ifree(iCurImage->Pal.Palette);
 	}
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 8cb0e06..6914da7 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -848,6 +848,11 @@ ILuint iTargaSize(void)
 	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
 	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return 0;
+	}
+
 	//@TODO: Support color indexed images.
 	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
 		// Use the slower method, since we are using compression.  We do a "fake" write.
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index af7c0ba..b274c6e 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -712,6 +712,11 @@ ILboolean VtfInitMipmaps(ILimage *BaseImage, VTFHEAD *Header)
 
 ILboolean CheckDimensions()
 {
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	if ((ilNextPower2(iCurImage->Width) != iCurImage->Width) || (ilNextPower2(iCurImage->Height) != iCurImage->Height)) {
 		ilSetError(IL_BAD_DIMENSIONS);
 		return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 2bf07d5..5d750ed 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -225,6 +225,11 @@ ILboolean iSaveWbmpInternal()
 	ILubyte	Val;
 	ILubyte	*TempData;
 
+	if (iCurImage == NULL) {
+		ilSetError(IL_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	iputc(0);  // First two header values
 	iputc(0);  //  must be 0.
 
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index b6efaf8..7491b32 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -23,6 +23,11 @@ ILboolean ILAPIENTRY iluEnlargeImage(ILfloat XDim, ILfloat YDim, ILfloat ZDim)
 	}
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	return iluScale((ILuint)(iluCurImage->Width * XDim), (ILuint)(iluCurImage->Height * YDim),
 					(ILuint)(iluCurImage->Depth * ZDim));
 }
-- 
2.43.0


From c72f2e729d860bc1f1228cdc1c3f00bff6606168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 04/81] fix: iluLoadImage binds the image it generates;
 iluCompareImage and iluRotate3D report a missing image

---
 DevIL/src-ILU/src/ilu_main.cpp   | 1 +
 DevIL/src-ILU/src/ilu_manip.cpp  | 7 ++++++-
 DevIL/src-ILU/src/ilu_rotate.cpp | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILU/src/ilu_main.cpp b/DevIL/src-ILU/src/ilu_main.cpp
index 535ae94..986014e 100644
--- a/DevIL/src-ILU/src/ilu_main.cpp
+++ b/DevIL/src-ILU/src/ilu_main.cpp
@@ -62,6 +62,7 @@ ILuint ILAPIENTRY iluLoadImage(ILconst_string FileName)
 	ilGenImages(1, &Id);
 	if (Id == 0)
 		return 0;
+	ilBindImage(Id);
 	if (!ilLoadImage(FileName)) {
 		ilDeleteImages(1, &Id);
 		return 0;
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 856b8c1..878f134 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -648,11 +648,16 @@ ILboolean ILAPIENTRY iluCompareImage(ILuint Comp)
 	iluCurImage = ilGetCurImage();
 	OrigName = ilGetCurName();
 
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
+
 	// Same image, so return true.
 	if (ilGetCurName() == Comp)
 		return IL_TRUE;
 
-	if (iluCurImage == NULL || ilIsImage(Comp) == IL_FALSE) {
+	if (ilIsImage(Comp) == IL_FALSE) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return 0;
 	}
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index c688622..2ef7fc5 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -69,6 +69,10 @@ ILboolean ILAPIENTRY iluRotate3D(ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 // return IL_FALSE;
 
 	iluCurImage = ilGetCurImage();
+	if (iluCurImage == NULL) {
+		ilSetError(ILU_ILLEGAL_OPERATION);
+		return IL_FALSE;
+	}
 	Temp = iluRotate3D_(iluCurImage, x, y, z, Angle);
 	if (Temp != NULL) {
 		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
-- 
2.43.0


From 022c743f35ec2cea2d1d106e643597c85f81c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 05/81] fix: a rejected .xpm colour entry is reported

---
 DevIL/src-IL/src/il_xpm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 4b4a3e8..748d5fd 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -605,6 +605,7 @@ ILboolean iLoadXpmInternal()
 		if (!XpmGetColour(Buffer, Size, CharsPerPixel, Colours)) {
 			ifree(Colours);
 #endif
+			ilSetError(IL_INVALID_FILE_HEADER);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From fc4e884eac7531090b0bdf566b60f75860480586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 06/81] fix: loading a stream or lump of undeterminable type
 records an error

---
 DevIL/src-IL/src/il_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 01f324d..1c4b0ba 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -1340,6 +1340,7 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
@@ -1605,6 +1606,7 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 	switch (Type)
 	{
 		case IL_TYPE_UNKNOWN:
+			ilSetError(IL_FORMAT_NOT_SUPPORTED);
 			return IL_FALSE;
 
 		#ifndef IL_NO_TGA
-- 
2.43.0


From c48a23d0bf4fccd945972e32e10a7dbd8ed9c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 07/81] fix: .mdl files with several textures dereferenced a
 missing sub-image

---
 DevIL/src-IL/src/il_mdl.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 6e5d81a..7a0c520 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -175,14 +175,19 @@ ILboolean iLoadMdlInternal()
 		}
 
 		if (!BaseCreated) {
-			ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(TexHead.Width, TexHead.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			BaseCreated = IL_TRUE;
 			BaseImage = iCurImage;
 			//iCurImage->NumNext = NumTex - 1;  // Don't count the first image.
 		}
 		else {
-			//iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			iCurImage->Next = ilNewImage(TexHead.Width, TexHead.Height, 1, 1, 1);
+			if (iCurImage->Next == NULL) {
+				iCurImage = BaseImage;
+				return IL_FALSE;
+			}
 			iCurImage = iCurImage->Next;
 			iCurImage->Format = IL_COLOUR_INDEX;
 			iCurImage->Type = IL_UNSIGNED_BYTE;
@@ -198,10 +203,11 @@ ILboolean iLoadMdlInternal()
 		iCurImage->Pal.PalType = IL_PAL_RGB24;
 
 		iseek(TexHead.Offset, IL_SEEK_SET);
-		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1)
-			return IL_FALSE;
-		if (iread(iCurImage->Pal.Palette, 1, 768) != 768)
+		if (iread(iCurImage->Data, TexHead.Width * TexHead.Height, 1) != 1
+			|| iread(iCurImage->Pal.Palette, 1, 768) != 768) {
+			iCurImage = BaseImage;
 			return IL_FALSE;
+		}
 
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
 			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
-- 
2.43.0


From ddf87c5d1016e11ac73c378422e8e66f3de60dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 08/81] fix: ilApplyProfile reports profiles that cannot be
 opened

---
 DevIL/src-IL/src/il_profiles.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_profiles.cpp b/DevIL/src-IL/src/il_profiles.cpp
index 695f9a2..2f89ef4 100644
--- a/DevIL/src-IL/src/il_profiles.cpp
+++ b/DevIL/src-IL/src/il_profiles.cpp
@@ -134,7 +134,7 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 			ilSetError(IL_INVALID_PARAM);
 			return IL_FALSE;
 		}
-		hInProfile = iCurImage->Profile;
+		hInProfile = cmsOpenProfileFromMem(iCurImage->Profile, iCurImage->ProfileSize);
 	}
 	else {
 #ifndef _UNICODE
@@ -151,10 +151,26 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 	hOutProfile = cmsOpenProfileFromFile(AnsiName, "r");
 #endif//_UNICODE
 
+	if (hInProfile == NULL || hOutProfile == NULL) {
+		if (hInProfile != NULL)
+			cmsCloseProfile(hInProfile);
+		if (hOutProfile != NULL)
+			cmsCloseProfile(hOutProfile);
+		ilSetError(IL_COULD_NOT_OPEN_FILE);
+		return IL_FALSE;
+	}
+
 	hTransform = cmsCreateTransform(hInProfile, Format, hOutProfile, Format, INTENT_PERCEPTUAL, 0);
+	cmsCloseProfile(hInProfile);
+	cmsCloseProfile(hOutProfile);
+	if (hTransform == NULL) {
+		ilSetError(IL_INVALID_CONVERSION);
+		return IL_FALSE;
+	}
 
 	Temp = (ILubyte*)ialloc(iCurImage->SizeOfData);
 	if (Temp == NULL) {
+		cmsDeleteTransform(hTransform);
 		return IL_FALSE;
 	}
 
@@ -164,9 +180,6 @@ ILboolean ILAPIENTRY ilApplyProfile(ILstring InProfile, ILstring OutProfile)
 	iCurImage->Data = Temp;
 
 	cmsDeleteTransform(hTransform);
-	if (InProfile != NULL)
-		cmsCloseProfile(hInProfile);
-	cmsCloseProfile(hOutProfile);
 
 #endif//IL_NO_LCMS
 
-- 
2.43.0


From a4ddb2efd960a0845009f50eefb4d3916792f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 09/81] fix: iluPixelize of 16/32/64-bit images without a
 region

---
 DevIL/src-ILU/src/ilu_filter.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index 19d37d1..bbc4f23 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -11,7 +11,7 @@
 //! Pixelizes an image
 ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 {
-	ILuint		x, y, z, i, j, k, c, r, Total, Tested;
+	ILuint		x, y, z, i, j, k, c, Total, Tested;
 	ILushort	*ShortPtr;
 	ILuint		*IntPtr;
 	ILdouble	*DblPtr, DblTotal, DblTested;
@@ -25,7 +25,6 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 
 	if (PixSize == 0)
 		PixSize = 1;
-	r = 0;
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX)
 		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
@@ -73,7 +72,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 			iluCurImage->Bps /= 2;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							Total = 0;  Tested = 0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -89,7 +88,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											ShortPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												Total;
@@ -108,7 +107,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 			iluCurImage->Bps /= 4;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							Total = 0;  Tested = 0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -124,7 +123,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, Tested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											IntPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												Total;
@@ -143,7 +142,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 			iluCurImage->Bps /= 8;
 			for (z = 0; z < iluCurImage->Depth; z += PixSize) {
 				for (y = 0; y < iluCurImage->Height; y += PixSize) {
-					for (x = 0; x < iluCurImage->Width; x += PixSize, r += PixSize) {
+					for (x = 0; x < iluCurImage->Width; x += PixSize) {
 						for (c = 0; c < iluCurImage->Bpp; c++) {
 							DblTotal = 0.0;  DblTested = 0.0;
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
@@ -159,7 +158,7 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 							for (k = 0; k < PixSize && z+k < iluCurImage->Depth; k++) {
 								for (j = 0; j < PixSize && y+j < iluCurImage->Height; j++) {
 									for (i = 0; i < PixSize && x+i < iluCurImage->Width; i++, DblTested++) {
-										if (RegionMask[r+i]) {
+										if (!RegionMask || RegionMask[(y+j) * iluCurImage->Width + (x+i)]) {
 											DblPtr[(z+k) * iluCurImage->SizeOfPlane + (y+j)
 												* iluCurImage->Bps + (x+i) * iluCurImage->Bpp + c] =
 												DblTotal;
-- 
2.43.0


From 69ff563e20df13286c940b71fc323a28231ca747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 10/81] fix: ILU calls report failed image creation and
 allocation

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp |  2 ++
 DevIL/src-ILU/src/ilu_manip.cpp      |  8 ++++++--
 DevIL/src-ILU/src/ilu_region.cpp     | 13 +++++++++++--
 DevIL/src-ILU/src/ilu_rotate.cpp     |  9 ++++++++-
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index 269408a..ada7aab 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -473,6 +473,8 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	}
 
 	Dest = ilNewImage(Width, Height, 1, iluCurImage->Bpp, 1);
+	if (Dest == NULL)
+		return IL_FALSE;
 	Dest->Origin = iluCurImage->Origin;
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 878f134..2ee0cdd 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -31,7 +31,7 @@ ILboolean iluCrop2D(ILuint XOff, ILuint YOff, ILuint Width, ILuint Height) {
 	Origin = iluCurImage->Origin;
 	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, 1, iluCurImage->Format, iluCurImage->Type, Data);
 	if (!ilTexImage(Width, Height, iluCurImage->Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
-		free(Data);
+		ifree(Data);
 		return IL_FALSE;
 	}
 	iluCurImage->Origin = Origin;
@@ -81,6 +81,7 @@ ILboolean iluCrop3D(ILuint XOff, ILuint YOff, ILuint ZOff, ILuint Width, ILuint
 	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, iluCurImage->Depth, iluCurImage->Format, iluCurImage->Type, Data);
 	if (!ilTexImage(Width - XOff, Height - YOff, Depth - ZOff, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
 		ifree(Data);
+		return IL_FALSE;
 	}
 	iluCurImage->Origin = Origin;
 
@@ -200,7 +201,10 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 	Origin   = iluCurImage->Origin;
 	ilCopyPixels(0, 0, 0, iluCurImage->Width, iluCurImage->Height, OldD, iluCurImage->Format, iluCurImage->Type, Data);
 
-	ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL);
+	if (!ilTexImage(Width, Height, Depth, iluCurImage->Bpp, iluCurImage->Format, iluCurImage->Type, NULL)) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 	iluCurImage->Origin = Origin;
 
 	ilClearImage();
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 4824c14..1c4d1fb 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -124,7 +124,7 @@ void MakeEdgeRec(ILpointi lower, ILpointi upper, ILint yComp, Edge *edge, Edge *
 }
 
 
-void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
+ILboolean BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 {
 	Edge *edge;
 	ILpointi v1, v2;
@@ -138,6 +138,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		v2 = pts[i];
 		if (v1.y != v2.y) {			// nonhorizontal line
 			edge = (Edge*)ialloc(sizeof(Edge));
+			if (edge == NULL)
+				return IL_FALSE;
 			if (v1.y < v2.y) {		// up-going edge
 				MakeEdgeRec(v1, v2, yNext(i, cnt, pts), edge, edges);
 			}
@@ -148,6 +150,8 @@ void BuildEdgeList(ILuint cnt, ILpointi *pts, Edge **edges)
 		yPrev = v1.y;
 		v1 = v2;
 	}
+
+	return IL_TRUE;
 }
 
 
@@ -256,10 +260,15 @@ ILubyte *iScanFill()
 
 	for (i = 0; i < iluCurImage->Height; i++) {
 		edges[i] = (Edge*)ialloc(sizeof(Edge));
+		if (edges[i] == NULL)
+			goto error;
 		edges[i]->next = NULL;
 	}
-	BuildEdgeList(PointNum, RegionPointsi, edges);
+	if (!BuildEdgeList(PointNum, RegionPointsi, edges))
+		goto error;
 	active = (Edge*)ialloc(sizeof(Edge));
+	if (active == NULL)
+		goto error;
 	active->next = NULL;
 
 	for (scan = 0; scan < iluCurImage->Height; scan++) {
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 2ef7fc5..1735d6b 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -30,6 +30,8 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		PalType = iluCurImage->Pal.PalType;
 		CurImage = iluCurImage;
 		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (iluCurImage == NULL)
+			return IL_FALSE;
 	}
 
 	Temp = iluRotate_(iluCurImage, Angle);
@@ -38,10 +40,15 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 			ilCloseImage(iluCurImage);
 			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
+			if (Temp1 == NULL)
+				return IL_FALSE;
 			Temp = Temp1;
 			ilSetCurImage(CurImage);
 		}
-		ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data);
+		if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
+			ilCloseImage(Temp);
+			return IL_FALSE;
+		}
 		if (PalType != 0) {
 			iluCurImage = ilGetCurImage();
 			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
-- 
2.43.0


From 87b52b4646a6800940f9ae4775e74cae887892c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 11/81] fix: loaders, savers and image copies report failed
 image creation and allocation

---
 DevIL/src-IL/src/il_convbuff.cpp |  6 ++++++
 DevIL/src-IL/src/il_convert.cpp  |  8 +++++---
 DevIL/src-IL/src/il_dcx.cpp      |  5 ++++-
 DevIL/src-IL/src/il_devil.cpp    | 14 +++++++++-----
 DevIL/src-IL/src/il_hdr.cpp      |  4 ++++
 DevIL/src-IL/src/il_icns.cpp     | 14 +++++++++++---
 DevIL/src-IL/src/il_icon.cpp     | 15 +++++++++++----
 DevIL/src-IL/src/il_ilbm.cpp     |  3 +++
 DevIL/src-IL/src/il_mng.cpp      |  6 ++++--
 DevIL/src-IL/src/il_png.cpp      |  9 +++++++++
 DevIL/src-IL/src/il_psd.cpp      |  6 ++++++
 DevIL/src-IL/src/il_psp.cpp      | 12 ++++++++----
 DevIL/src-IL/src/il_rot.cpp      |  2 ++
 DevIL/src-IL/src/il_sgi.cpp      |  6 +++---
 DevIL/src-IL/src/il_sun.cpp      |  2 ++
 DevIL/src-IL/src/il_targa.cpp    |  8 ++++++++
 DevIL/src-IL/src/il_tiff.cpp     | 13 +++++++++++++
 DevIL/src-IL/src/il_utx.cpp      |  3 ++-
 DevIL/src-IL/src/il_vtf.cpp      |  2 ++
 19 files changed, 112 insertions(+), 26 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 3ed07a2..53126a5 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -73,6 +73,12 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 
 	// Colour-indexed images are special here
 	if (SrcFormat == IL_COLOUR_INDEX) {
+		if (SrcPal == NULL) {  // Cannot look the indices up.
+			ilSetError(IL_INVALID_PARAM);
+			if (Data != Buffer)
+				ifree(Data);
+			return NULL;
+		}
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 		if (PalImage == NULL)
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index ef7aa63..a482863 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -231,10 +231,8 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	}
 
 	// Resize to new bpp
-	ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1);
-
 	// ilConvertPal already sets the error message - no need to confuse the user.
-	if (!Converted) {
+	if (!Converted || !ilResizeImage(NewImage, NewImage->Width, NewImage->Height, NewImage->Depth, ilGetBppFormat(DestFormat), /*ilGetBpcType(DestType)*/1)) {
 		ilSetCurImage(CurImage);
 		ilCloseImage(NewImage);
 		return NULL;
@@ -348,6 +346,10 @@ ILAPI ILimage* ILAPIENTRY iConvertImage(ILimage *Image, ILenum DestFormat, ILenu
 			NewImage->Pal.PalSize = 768;
 			NewImage->Pal.PalType = IL_PAL_RGB24;
 			NewImage->Pal.Palette = (ILubyte*)ialloc(768);
+			if (NewImage->Pal.Palette == NULL) {
+				ilCloseImage(NewImage);
+				return NULL;
+			}
 			for (i = 0; i < 256; i++) {
 				NewImage->Pal.Palette[i * 3] = i;
 				NewImage->Pal.Palette[i * 3 + 1] = i;
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index efe1314..fe608a8 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -203,7 +203,10 @@ ILboolean iLoadDcxInternal()
 			return IL_FALSE;
 
 		if (i == 0) {
-			ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data);
+			if (!ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data)) {
+				ilCloseImage(Image);
+				return IL_FALSE;
+			}
 			Base = iCurImage;
 			Base->Origin = IL_ORIGIN_UPPER_LEFT;
 			ilCloseImage(Image);
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index d08d7f7..c26988f 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1065,10 +1065,10 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
-	ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data);
-	ilCopyImageAttr(DestImage, SrcImage);
+	if (!ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
+		return IL_FALSE;
 	
-	return IL_TRUE;
+	return ilCopyImageAttr(DestImage, SrcImage);
 }
 
 
@@ -1113,8 +1113,12 @@ ILuint ILAPIENTRY ilCloneCurImage()
 	CurImage = iCurImage;
 	
 	ilBindImage(Id);
-	ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data);
-	ilCopyImageAttr(iCurImage, CurImage);
+	if (!ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
+		|| !ilCopyImageAttr(iCurImage, CurImage)) {
+		iCurImage = CurImage;
+		ilDeleteImages(1, &Id);
+		return 0;
+	}
 	
 	iCurImage = CurImage;
 	
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index e5b47a2..eb4c76e 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -226,6 +226,10 @@ ILboolean iLoadHdrInternal()
 
 	data = (ILfloat*)iCurImage->Data;
 	scanline = (ILubyte*)ialloc(Header.Width*4);
+	if (scanline == NULL) {
+		iUnCache();
+		return IL_FALSE;
+	}
 	for (i = 0; i < Header.Height; ++i) {
 		ReadScanline(scanline, Header.Width);
 
diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index 89cf47f..d9483b8 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -260,15 +260,23 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 	{
 		if (!*BaseCreated)  // Create base image
 		{
-			ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(Width, Width, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL)) {
+				ifree(Data);
+				return IL_FALSE;
+			}
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 			*Image = iCurImage;
 			*BaseCreated = IL_TRUE;
 		}
 		else  // Create next image in list
 		{
-			(*Image)->Next = ilNewImage(Width, Width, 1, 4, 1);
-			*Image = (*Image)->Next;
+			TempImage = ilNewImage(Width, Width, 1, 4, 1);
+			if (TempImage == NULL) {
+				ifree(Data);
+				return IL_FALSE;
+			}
+			(*Image)->Next = TempImage;
+			*Image = TempImage;
 			(*Image)->Format = IL_RGBA;
 			(*Image)->Origin = IL_ORIGIN_UPPER_LEFT;
 		}
diff --git a/DevIL/src-IL/src/il_icon.cpp b/DevIL/src-IL/src/il_icon.cpp
index 23adb16..ed6070d 100644
--- a/DevIL/src-IL/src/il_icon.cpp
+++ b/DevIL/src-IL/src/il_icon.cpp
@@ -206,10 +206,11 @@ ILboolean iLoadIconInternal()
 			continue;
 
 		if (!BaseCreated) {
-			if (IconImages[i].Head.Size == 0)  // PNG compressed icon
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-			else
-				ilTexImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(IconImages[i].Head.Width,
+				// The height of anything but a PNG compressed icon includes the AND mask.
+				IconImages[i].Head.Size == 0 ? IconImages[i].Head.Height : IconImages[i].Head.Height / 2,
+				1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+				goto file_read_error;
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 			Image = iCurImage;
 			BaseCreated = IL_TRUE;
@@ -219,6 +220,8 @@ ILboolean iLoadIconInternal()
 				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height, 1, 4, 1);
 			else
 				Image->Next = ilNewImage(IconImages[i].Head.Width, IconImages[i].Head.Height / 2, 1, 4, 1);
+			if (Image->Next == NULL)
+				goto file_read_error;
 			Image = Image->Next;
 			Image->Format = IL_BGRA;
 		}
@@ -619,6 +622,10 @@ ILboolean ico_readpng_get_image(ICOIMAGE *Icon, ILdouble display_exponent)
 
 // @TODO: We may need to keep track of the size of the palette.
 		Icon->Pal = (ILubyte*)ialloc(num_palette * chans);
+		if (Icon->Pal == NULL) {
+			png_destroy_read_struct(&ico_png_ptr, &ico_info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			Icon->Pal[chans*j + 0] = palette[j].blue;
diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index cdbf73f..56b1c68 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -413,7 +413,10 @@ static ILboolean load_ilbm(void)
         format = IL_COLOUR_INDEX;
     }
     if( !ilTexImage( width, bmhd.h, 1, (format==IL_COLOUR_INDEX)?1:3, format, IL_UNSIGNED_BYTE, NULL ) )
+    {
+        error=(char*)"cannot create the image";
         goto done;
+    }
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 #if 0 /*  No transparent colour support in DevIL? (TODO: confirm) */
diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 8241c23..87e912e 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -132,12 +132,14 @@ mng_bool MNG_DECL mymngprocessheader(mng_handle mng, mng_uint32 width, mng_uint3
 	AlphaDepth = mng_get_alphadepth(mng);
 
 	if (AlphaDepth == 0) {
-		ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 3, IL_BGR, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGR8);
 	}
 	else {  // Use alpha channel
-		ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(width, height, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL))
+			return MNG_FALSE;
 		iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
 		mng_set_canvasstyle(mng, MNG_CANVAS_BGRA8);
 	}
diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index 5ceb645..f52d172 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -367,6 +367,11 @@ ILboolean readpng_get_image(ILdouble display_exponent)
 		iCurImage->Pal.PalSize = num_palette * chans;
 
 		iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
+		if (iCurImage->Pal.Palette == NULL) {
+			iCurImage->Pal.PalSize = 0;
+			png_destroy_read_struct(&png_ptr, &info_ptr, NULL);
+			return IL_FALSE;
+		}
 
 		for (j = 0; j < num_palette; ++j) {
 			iCurImage->Pal.Palette[chans*j + 0] = palette[j].red;
@@ -606,6 +611,10 @@ ILboolean iSavePngInternal()
         }
 
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+		if (TempPal == NULL) {
+			png_destroy_write_struct(&png_ptr, &info_ptr);
+			return IL_FALSE;
+		}
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
         ilClosePal(TempPal);
 
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index bd3e953..2c9f994 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -533,6 +533,8 @@ ILuint *GetCompChanLen(PSDHEAD *Head)
 	RleTable = (ILushort*)ialloc(Head->Height * ChannelNum * sizeof(ILushort));
 	ChanLen = (ILuint*)ialloc(ChannelNum * sizeof(ILuint));
 	if (RleTable == NULL || ChanLen == NULL) {
+		ifree(RleTable);
+		ifree(ChanLen);
 		return NULL;
 	}
 
@@ -728,6 +730,10 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	}
 	else {
 		ChanLen = GetCompChanLen(Head);
+		if (ChanLen == NULL) {
+			ifree(Channel);
+			return IL_FALSE;
+		}
 
 		Size = Head->Width * Head->Height;
 		for (c = 0; c < NumChan; c++) {
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index d8c6669..013c69c 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -627,7 +627,8 @@ ILboolean AssembleImage()
 	Size = AttChunk.Width * AttChunk.Height;
 
 	if (NumChannels == 1) {
-		ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
+		if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL))
+			return IL_FALSE;
 		for (i = 0; i < Size; i++) {
 			iCurImage->Data[i] = Channels[0][i];
 		}
@@ -641,7 +642,8 @@ ILboolean AssembleImage()
 	}
 	else {
 		if (Alpha) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
@@ -652,7 +654,8 @@ ILboolean AssembleImage()
 
 		else if (NumChannels == 4) {
 
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 
 			for (i = 0, j = 0; i < Size; i++, j += 4) {
 
@@ -668,7 +671,8 @@ ILboolean AssembleImage()
 
 		}
 		else if (NumChannels == 3) {
-			ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL);
+			if (!ilTexImage(AttChunk.Width, AttChunk.Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL))
+				return IL_FALSE;
 			for (i = 0, j = 0; i < Size; i++, j += 3) {
 				iCurImage->Data[j  ] = Channels[0][i];
 				iCurImage->Data[j+1] = Channels[1][i];
diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index c6ec36b..a15efb0 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -187,6 +187,8 @@ ILboolean iLoadRotInternal(void)
 		}
 		else {
 			Image->Mipmaps = ilNewImageFull(MipWidth, MipHeight, 1, Channels, FormatIL, IL_UNSIGNED_BYTE, NULL);
+			if (Image->Mipmaps == NULL)
+				return IL_FALSE;
 			Image = Image->Mipmaps;
 		}
 
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 3f07f65..6d6c1e0 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -587,12 +587,12 @@ ILboolean iSaveSgiInternal()
 		Temp = iConvertImage(iCurImage, iCurImage->Format, DetermineSgiType(iCurImage->Type));
 	}
 	
-	//compression of images with 2 bytes per channel doesn't work yet
-	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
-
 	if (Temp == NULL)
 		return IL_FALSE;
 
+	//compression of images with 2 bytes per channel doesn't work yet
+	Compress = iGetInt(IL_SGI_RLE) && Temp->Bpc == 1;
+
 	SaveBigUShort(SGI_MAGICNUM);  // 'Magic' number
 	if (Compress)
 		iputc(1);
diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 61f6ba4..9f72f95 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -231,6 +231,8 @@ ILboolean iLoadSunInternal(void)
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
+			if (iCurImage->Pal.Palette == NULL)
+				return IL_FALSE;
 			if (Header.ColorMapLength == 0) {  // Create the color map
 				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
 				iCurImage->Pal.Palette[1] = 0x00;
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 6914da7..28adb96 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -722,6 +722,14 @@ ILboolean iSaveTargaInternal()
 	
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = (char*)iGetFlipped(TempImage);
+		if (TempData == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			ifree(ID);
+			ifree(AuthName);
+			ifree(AuthComment);
+			return IL_FALSE;
+		}
 	}
 	else
 		TempData = (char*)TempImage->Data;
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 4d9d117..584899b 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -389,6 +389,11 @@ ILboolean iLoadTiffInternal()
 				Image->Pal.PalSize = (count)*3;
 				Image->Pal.PalType = IL_PAL_RGB24;
 				Image->Pal.Palette = (ILubyte*)ialloc(Image->Pal.PalSize);
+				if (Image->Pal.Palette == NULL) {
+					Image->Pal.PalSize = 0;
+					TIFFClose(tif);
+					return IL_FALSE;
+				}
 				entry = Image->Pal.Palette;
 				for (j = 0; j < count; ++j) {
 					entry[0] = (ILubyte)(red[j] >> 8);
@@ -403,6 +408,10 @@ ILboolean iLoadTiffInternal()
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			if (bitspersample == 8 || bitspersample == 16) {
 				ILubyte *dat = Image->Data;
@@ -526,6 +535,10 @@ ILboolean iLoadTiffInternal()
 			stripsize = TIFFStripSize(tif);
 
 			strip = (ILubyte*)ialloc(stripsize);
+			if (strip == NULL) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 
 			dat = Image->Data;
 			for (y = 0; y < h; y += rowsperstrip) {
diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 4bd71ba..f993dfb 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -482,7 +482,8 @@ ILboolean iLoadUtxInternal(void)
 				return IL_FALSE;
 			if (BaseCreated == IL_FALSE) {
 				BaseCreated = IL_TRUE;
-				ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL);
+				if (!ilTexImage(Width, Height, 1, UtxFormatToBpp(Format), UtxFormatToDevIL(Format), IL_UNSIGNED_BYTE, NULL))
+					return IL_FALSE;
 				Image = iCurImage;
 			}
 			else {
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index b274c6e..e11d114 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -576,6 +576,8 @@ ILboolean iLoadVtfInternal(void)
 					case IMAGE_FORMAT_BGRX5551:
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
+						if (CompData == NULL)
+							return IL_FALSE;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
-- 
2.43.0


From 65ff69918911667399e5ce072299626778691b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 12/81] fix: keep stream positions relative to where the
 caller's stream stood

iSetInputFile() recorded the start through the (unset) relative tell, and seeks
added the start to absolute positions, so a stream that did not stand at 0 was
left elsewhere; saving with seeks (BMP, TIFF, SGI) overwrote what precedes.
---
 DevIL/src-IL/src/il_blp.cpp     | 4 +++-
 DevIL/src-IL/src/il_files.cpp   | 7 ++++---
 DevIL/src-IL/src/il_texture.cpp | 5 ++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index 85fbc4d..a234199 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -601,7 +601,9 @@ ILboolean iLoadBlp1()
 				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
 					return IL_FALSE;
 
-				// Just send the data straight to the Jpeg loader.
+				// Just send the data straight to the Jpeg loader.  It makes JpegData
+				//  the input, so go back to the start of our own input before that.
+				iseek(0, IL_SEEK_SET);
 				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
 					return IL_FALSE;
 
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 54726c3..96d05f0 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -310,7 +310,7 @@ void iSetInputFile(ILHANDLE File)
 	iseek = iSeekRFile;
 	itell = iTellRFile;
 	FileRead = File;
-	ReadFileStart = itell();
+	ReadFileStart = TellRProc(FileRead);
 }
 
 
@@ -341,6 +341,7 @@ void iSetOutputFile(ILHANDLE File)
 	itellw = iTellWFile;
 	iwrite = iWriteFile;
 	FileWrite = File;
+	WriteFileStart = TellWProc(FileWrite);
 }
 
 
@@ -645,7 +646,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellRFile(void)
 {
-	return TellRProc(FileRead);
+	return TellRProc(FileRead) - ReadFileStart;  // Relative to the start, like iSeekRFile.
 }
 
 
@@ -763,7 +764,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 
 ILuint ILAPIENTRY iTellWFile(void)
 {
-	return TellWProc(FileWrite);
+	return TellWProc(FileWrite) - WriteFileStart;  // Relative to the start, like iSeekWFile.
 }
 
 
diff --git a/DevIL/src-IL/src/il_texture.cpp b/DevIL/src-IL/src/il_texture.cpp
index 27d0c7a..5e9ab4b 100644
--- a/DevIL/src-IL/src/il_texture.cpp
+++ b/DevIL/src-IL/src/il_texture.cpp
@@ -37,16 +37,15 @@ ILboolean ilLoadTexture(ILconst_string FileName)
 //! Reads an already-opened TEXTURE file
 ILboolean ilLoadTextureF(ILHANDLE File)
 {
-	ILuint		FirstPos;
 	ILboolean	bRet;
 	
 	iSetInputFile(File);
-	FirstPos = itell();
 	// From http://forums.totalwar.org/vb/showthread.php?t=70886, all that needs to be done
 	//  is to strip out the first 48 bytes, and then it is DDS data.
 	iseek(48, IL_SEEK_CUR);
 	bRet = ilLoadDdsF(File);
-	iseek(FirstPos, IL_SEEK_SET);
+	iSetInputFile(File);  // ilLoadDdsF() made its own start the origin of the stream
+	iseek(-48, IL_SEEK_CUR);
 	
 	return bRet;
 }
-- 
2.43.0


From 3e07ef20324fd1bd6160a5ab739e473f30f4178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 13/81] fix: ilSaveF returns the number of bytes written

The count was kept in an ILboolean, so a size that is a multiple of 256 was
reported as a failure, and the stream position was returned instead of the size.
---
 DevIL/src-IL/src/il_io.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 1c4b0ba..8390a4f 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -2369,7 +2369,7 @@ ILboolean ILAPIENTRY ilSave(ILenum Type, ILconst_string FileName)
 	\return Boolean value of failure or success.  Returns IL_FALSE if saving failed.*/
 ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 {
-	ILboolean Ret;
+	ILuint Ret;
 
 	if (File == NULL) {
 		ilSetError(IL_INVALID_PARAM);
@@ -2475,10 +2475,7 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			return 0;
 	}
 
-	if (Ret == IL_FALSE)
-		return 0;
-
-	return itellw();
+	return Ret;  // The number of bytes written, or 0 if an error occurred.
 }
 
 
-- 
2.43.0


From d4fb98bf090ee17c5ff148f45eddbb0dd1aa4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 14/81] fix: take the start position of TGA and TIFF lump saves
 after the lump is set

The position was asked from the previous output (a null pointer if there was
none), so the returned size was wrong.
---
 DevIL/src-IL/src/il_targa.cpp | 3 ++-
 DevIL/src-IL/src/il_tiff.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 28adb96..4432a4e 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -580,8 +580,9 @@ ILuint ilSaveTargaF(ILHANDLE File)
 //! Writes a Targa to a memory "lump"
 ILuint ilSaveTargaL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTargaInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 584899b..520bbba 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -927,8 +927,9 @@ ILuint ilSaveTiffF(ILHANDLE File)
 //! Writes a Tiff to a memory "lump"
 ILuint ilSaveTiffL(void *Lump, ILuint Size)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputLump(Lump, Size);
+	Pos = itellw();
 	if (iSaveTiffInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From b382a884db2baaf819b02a50033c53eb0668ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 15/81] fix: RLE SGI saves leave the output at its end, so that
 the size is right

---
 DevIL/src-IL/src/il_sgi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 6d6c1e0..06f4ad0 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -702,7 +702,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 	ILuint	c, i, y, j;
 	ILubyte	*ScanLine = NULL, *CompLine = NULL;
 	ILuint	*StartTable = NULL, *LenTable = NULL;
-	ILuint	TableOff, DataOff = 0;
+	ILuint	TableOff, DataOff = 0, EndOff;
 
 	ScanLine = (ILubyte*)ialloc(w);
 	CompLine = (ILubyte*)ialloc(w * 2 + 1);  // Absolute worst case.
@@ -734,6 +734,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 		}
 	}
 
+	EndOff = itellw();
 	iseekw(TableOff, IL_SEEK_SET);
 
 	j = h * numChannels;
@@ -748,6 +749,7 @@ ILboolean iSaveRleSgi(ILubyte *Data, ILuint w, ILuint h, ILuint numChannels,
 
 	iwrite(StartTable, sizeof(ILuint), h * numChannels);
 	iwrite(LenTable, sizeof(ILuint), h * numChannels);
+	iseekw(EndOff, IL_SEEK_SET);
 
 	ifree(ScanLine);
 	ifree(CompLine);
-- 
2.43.0


From 167158d2e76e3bd1f961c412387f076810faa915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 16/81] fix: keep reads, writes and seeks on memory lumps
 inside the lump

Seeks accepted negative offsets, empty lumps were not bounded at all, igetc() at
the end stepped back (and so never stayed at the end), and iwrite() on a lump
returned bytes instead of items, so that item-count checks failed.
---
 DevIL/src-IL/src/il_files.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 96d05f0..8a5edc4 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -425,9 +425,7 @@ ILboolean ILAPIENTRY iEofFile(void)
 
 ILboolean ILAPIENTRY iEofLump(void)
 {
-	if (ReadLumpSize)
-		return (ReadLumpPos >= ReadLumpSize);
-	return IL_FALSE;
+	return (ReadLumpPos >= ReadLumpSize);
 }
 
 
@@ -447,13 +445,9 @@ ILint ILAPIENTRY iGetcFile(void)
 
 ILint ILAPIENTRY iGetcLump(void)
 {
-	// If ReadLumpSize is 0, don't even check to see if we've gone past the bounds.
-	if (ReadLumpSize > 0) {
-		if (ReadLumpPos + 1 > ReadLumpSize) {
-			ReadLumpPos--;
-			ilSetError(IL_FILE_READ_ERROR);
-			return IL_EOF;
-		}
+	if (ReadLumpPos >= ReadLumpSize) {
+		ilSetError(IL_FILE_READ_ERROR);
+		return IL_EOF;
 	}
 
 	return *((ILubyte*)ReadLump + ReadLumpPos++);
@@ -616,7 +610,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)ReadLumpSize)
+			if (Offset < 0 || (ILuint)Offset > ReadLumpSize)
 				return 1;
 			ReadLumpPos = Offset;
 			break;
@@ -631,7 +625,7 @@ ILint ILAPIENTRY iSeekRLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)ReadLumpSize)  // If ReadLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > ReadLumpSize)  // If ReadLumpSize == 0, too bad
 				return 1;
 			ReadLumpPos = ReadLumpSize + Offset;
 			break;
@@ -703,12 +697,10 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 	ILuint i = 0;
 
 	for (; i < SizeBytes; i++) {
-		if (WriteLumpSize > 0) {
-			if (WriteLumpPos + i >= WriteLumpSize) {  // Should we use > instead?
-				ilSetError(IL_FILE_WRITE_ERROR);
-				WriteLumpPos += i;
-				return i;
-			}
+		if (WriteLumpPos + i >= WriteLumpSize) {
+			ilSetError(IL_FILE_WRITE_ERROR);
+			WriteLumpPos += i;
+			return i / Size;
 		}
 
 		*((ILubyte*)WriteLump + WriteLumpPos + i) = *((ILubyte*)Buffer + i);
@@ -716,7 +708,7 @@ ILint ILAPIENTRY iWriteLump(const void *Buffer, ILuint Size, ILuint Number)
 
 	WriteLumpPos += SizeBytes;
 	
-	return SizeBytes;
+	return Number;
 }
 
 
@@ -734,7 +726,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 	switch (Mode)
 	{
 		case IL_SEEK_SET:
-			if (Offset > (ILint)WriteLumpSize)
+			if (Offset < 0 || (ILuint)Offset > WriteLumpSize)
 				return 1;
 			WriteLumpPos = Offset;
 			break;
@@ -749,7 +741,7 @@ ILint ILAPIENTRY iSeekWLump(ILint Offset, ILuint Mode)
 			if (Offset > 0)
 				return 1;
 			// Should we use >= instead?
-			if (abs(Offset) > (ILint)WriteLumpSize)  // If WriteLumpSize == 0, too bad
+			if (0 - (ILuint)Offset > WriteLumpSize)  // If WriteLumpSize == 0, too bad
 				return 1;
 			WriteLumpPos = WriteLumpSize + Offset;
 			break;
-- 
2.43.0


From 5eac91c12dcfc8434a4de21e59b091a9c27a12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 17/81] fix: ilDetermineSize runs the lump saver for TGA and
 VTF

The separate TGA formula was one byte short, ignored palettes and RLE, and VTF was missing.
---
 DevIL/src-IL/src/il_size.cpp  | 10 +++++--
 DevIL/src-IL/src/il_targa.cpp | 52 -----------------------------------
 2 files changed, 7 insertions(+), 55 deletions(-)

diff --git a/DevIL/src-IL/src/il_size.cpp b/DevIL/src-IL/src/il_size.cpp
index 3cc8857..103a0ec 100755
--- a/DevIL/src-IL/src/il_size.cpp
+++ b/DevIL/src-IL/src/il_size.cpp
@@ -13,7 +13,6 @@
 #include "il_internal.h"
 
 
-ILuint iTargaSize(void);
 
 
 ILuint CurPos;  // Fake "file" pointer.
@@ -158,8 +157,7 @@ ILuint ilDetermineSize(ILenum Type)
 
 		#ifndef IL_NO_TGA
 		case IL_TGA:
-			//ilSaveTargaL(NULL, 0);
-			return iTargaSize();
+			ilSaveTargaL(NULL, 0);
 			break;
 		#endif//IL_NO_TGA
 
@@ -169,6 +167,12 @@ ILuint ilDetermineSize(ILenum Type)
 			break;
 		#endif//IL_NO_TIF
 
+		#ifndef IL_NO_VTF
+		case IL_VTF:
+			ilSaveVtfL(NULL, 0);
+			break;
+		#endif//IL_NO_VTF
+
 		#ifndef IL_NO_WBMP
 		case IL_WBMP:
 			ilSaveWbmpL(NULL, 0);
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 4432a4e..0289665 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -846,58 +846,6 @@ ILboolean iSaveTargaInternal()
 	return IL_TRUE;
 }
 
-
-// Only to be called by ilDetermineSize.  Returns the buffer size needed to save the
-//  current image as a Targa file.
-ILuint iTargaSize(void)
-{
-	ILuint	Size, Bpp;
-	ILubyte	IDLen = 0;
-	const char	*ID = iGetString(IL_TGA_ID_STRING);
-	const char	*AuthName = iGetString(IL_TGA_AUTHNAME_STRING);
-	const char	*AuthComment = iGetString(IL_TGA_AUTHCOMMENT_STRING);
-
-	if (iCurImage == NULL) {
-		ilSetError(IL_ILLEGAL_OPERATION);
-		return 0;
-	}
-
-	//@TODO: Support color indexed images.
-	if (iGetInt(IL_TGA_RLE) == IL_TRUE || iCurImage->Format == IL_COLOUR_INDEX) {
-		// Use the slower method, since we are using compression.  We do a "fake" write.
-		ilSaveTargaL(NULL, 0);
-	}
-
-	if (ID)
-		IDLen = (ILubyte)ilCharStrLen(ID);
-
-	Size = 18 + IDLen;  // Header + ID
-
-	// Bpp may not be iCurImage->Bpp.
-	switch (iCurImage->Format)
-	{
-		case IL_BGR:
-		case IL_RGB:
-			Bpp = 3;
-			break;
-		case IL_BGRA:
-		case IL_RGBA:
-			Bpp = 4;
-			break;
-		case IL_LUMINANCE:
-			Bpp = 1;
-			break;
-		default:  //@TODO: Do not know what to do with the others yet.
-			return 0;
-	}
-
-	Size += iCurImage->Width * iCurImage->Height * Bpp;
-	Size += 532;  // Size of the extension area
-
-	return Size;
-}
-
-
 /*// Makes a neat string to go into the id field of the .tga
 void iMakeString(char *Str)
 {
-- 
2.43.0


From 064790f6014026c0fbfaed68f92b928ee2d14dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 18/81] fix: TIFF saves return the size written and work to
 memory

libtiff's seeks to the end went to the end of the lump or file rather than of
the image, and the position left behind by TIFFClose() was taken as the end.
---
 DevIL/src-IL/src/il_tiff.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index 520bbba..aec9883 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -758,11 +758,18 @@ _tiffFileReadProcW(thandle_t fd, tdata_t pData, tsize_t tSize)
 
 /*----------------------------------------------------------------------------*/
 
+// End of what has been written so far, relative to the start of the output.
+//  (The end of the file or lump that we write to may lie behind that.)
+static ILuint TiffWriteEnd = 0;
+
 static tsize_t 
 _tiffFileWriteProc(thandle_t fd, tdata_t pData, tsize_t tSize)
 {
+	ILint Written = iwrite(pData, 1, (ILuint)tSize);
 	fd;
-	return iwrite(pData, 1, (ILuint)tSize);
+	if (itellw() > TiffWriteEnd)
+		TiffWriteEnd = itellw();
+	return Written;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -789,7 +796,10 @@ _tiffFileSeekProcW(thandle_t fd, toff_t tOff, int whence)
 	if (tOff == 0xFFFFFFFF)
 		return 0xFFFFFFFF;
 
-	iseekw((ILint)tOff, whence);
+	if (whence == SEEK_END)
+		iseekw(TiffWriteEnd + (ILint)tOff, IL_SEEK_SET);
+	else
+		iseekw((ILint)tOff, whence);
 	return itellw();
 	//return tOff;
 }
@@ -824,13 +834,7 @@ _tiffFileSizeProc(thandle_t fd)
 static toff_t
 _tiffFileSizeProcW(thandle_t fd)
 {
-	ILint Offset, Size;
-	Offset = itellw();
-	iseekw(0, IL_SEEK_END);
-	Size = itellw();
-	iseekw(Offset, IL_SEEK_SET);
-
-	return Size;
+	return TiffWriteEnd;
 }
 
 /*----------------------------------------------------------------------------*/
@@ -863,13 +867,15 @@ TIFF *iTIFFOpen(char *Mode)
 {
 	TIFF *tif;
 
-	if (Mode[0] == 'w')
+	if (Mode[0] == 'w') {
+		TiffWriteEnd = itellw();
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
 							NULL,
 							_tiffFileReadProcW, _tiffFileWriteProc,
 							_tiffFileSeekProcW, _tiffFileCloseProc,
 							_tiffFileSizeProcW, _tiffDummyMapProc,
 							_tiffDummyUnmapProc);
+	}
 	else
 		tif = TIFFClientOpen("TIFFMemFile", Mode,
 							NULL,
@@ -1051,6 +1057,12 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	TIFFSetField(File, TIFFTAG_ORIENTATION, ORIENTATION_TOPLEFT);
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		ILubyte* Data = iGetFlipped(TempImage);
+		if (Data == NULL) {
+			TIFFClose(File);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			return IL_FALSE;
+		}
 		OldData = TempImage->Data;
 		TempImage->Data = Data;
 	}
@@ -1095,6 +1107,8 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 		ilCloseImage(TempImage);
 
 	TIFFClose(File);
+	// libtiff goes back to link the directory, so go to the end of the image.
+	iseekw(TiffWriteEnd, IL_SEEK_SET);
 
 	return IL_TRUE;
 }
-- 
2.43.0


From 4f413a6b12abfb722e15087eca69931a26a5c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 19/81] fix: saving a compressed VTF keeps writing to its own
 output

ilGetDXTCData() redirects the output to its buffer and left it there, so the
compressed image was never written to the file.
---
 DevIL/src-IL/include/il_files.h  | 13 +++++++++++++
 DevIL/src-IL/src/il_dds-save.cpp |  4 ++++
 DevIL/src-IL/src/il_files.cpp    | 26 ++++++++++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/DevIL/src-IL/include/il_files.h b/DevIL/src-IL/include/il_files.h
index 20701f9..7518fa6 100644
--- a/DevIL/src-IL/include/il_files.h
+++ b/DevIL/src-IL/include/il_files.h
@@ -60,6 +60,19 @@ __FILES_EXTERN ILuint			(ILAPIENTRY *itell)(void);
 __FILES_EXTERN void				iSetOutputFile(ILHANDLE File);
 __FILES_EXTERN void				iSetOutputLump(void *Lump, ILuint Size);
 __FILES_EXTERN void				iSetOutputFake(void);
+
+// Where the output goes, to be restored after it has been redirected.
+typedef struct iOutput
+{
+	ILint		(ILAPIENTRY *Putc)(ILubyte Char);
+	ILint		(ILAPIENTRY *Seek)(ILint Offset, ILuint Mode);
+	ILuint		(ILAPIENTRY *Tell)(void);
+	ILint		(ILAPIENTRY *Write)(const void *Buffer, ILuint Size, ILuint Number);
+	void		*Lump;
+	ILuint		LumpPos, LumpSize;
+} iOutput;
+__FILES_EXTERN void				iGetOutput(iOutput *Output);
+__FILES_EXTERN void				iRestoreOutput(const iOutput *Output);
 __FILES_EXTERN void				(ILAPIENTRY *iclosew)(ILHANDLE);
 __FILES_EXTERN ILHANDLE			(ILAPIENTRY *iopenw)(ILconst_string);
 __FILES_EXTERN ILint			(ILAPIENTRY *iputc)(ILubyte Char);
diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 94aac7d..dcfa8cb 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -319,6 +319,7 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	ILubyte	*CurData = NULL;
 	ILuint	retVal;
 	ILint	BlockNum;
+	iOutput	Output;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -361,8 +362,11 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 	}
 
 	//@TODO: Is this the best way to do this?
+	// We may be called while an image is being saved, so put the output back afterwards.
+	iGetOutput(&Output);
 	iSetOutputLump(Buffer, BufferSize);
 	retVal = Compress(iCurImage, DXTCFormat);
+	iRestoreOutput(&Output);
 
 	if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		ifree(iCurImage->Data);
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 8a5edc4..988005f 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -375,6 +375,32 @@ void iSetOutputLump(void *Lump, ILuint Size)
 }
 
 
+// Remembers where the output currently goes
+void iGetOutput(iOutput *Output)
+{
+	Output->Putc     = iputc;
+	Output->Seek     = iseekw;
+	Output->Tell     = itellw;
+	Output->Write    = iwrite;
+	Output->Lump     = WriteLump;
+	Output->LumpPos  = WriteLumpPos;
+	Output->LumpSize = WriteLumpSize;
+}
+
+
+// Sends the output again where it went when iGetOutput was called
+void iRestoreOutput(const iOutput *Output)
+{
+	iputc         = Output->Putc;
+	iseekw        = Output->Seek;
+	itellw        = Output->Tell;
+	iwrite        = Output->Write;
+	WriteLump     = Output->Lump;
+	WriteLumpPos  = Output->LumpPos;
+	WriteLumpSize = Output->LumpSize;
+}
+
+
 ILuint ILAPIENTRY ilGetLumpPos()
 {
 	if (WriteLump)
-- 
2.43.0


From d51d18000e37593013b5053615f9d6d6f9ad2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 20/81] fix: BMP and VTF saves do not free the bound image when
 flipping it fails

VTF also wrote the unflipped rows of a lower-left image, and leaked its copies.
---
 DevIL/src-IL/src/il_bmp.cpp |  3 ++-
 DevIL/src-IL/src/il_vtf.cpp | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 0ba5ef0..8e0b598 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -967,7 +967,8 @@ ILboolean iSaveBitmapInternal()
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index e11d114..3f9dda3 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -860,7 +860,8 @@ ILboolean iSaveVtfInternal()
 	if (TempImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	} else {
@@ -912,8 +913,13 @@ ILboolean iSaveVtfInternal()
 
 	if (Compression == IL_DXT_NO_COMP) {
 		// We just write the image data directly.
-		if (iwrite(TempImage->Data, TempImage->SizeOfData, 1) != 1)
+		if (iwrite(TempData, TempImage->SizeOfData, 1) != 1) {
+			if (TempData != TempImage->Data)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 	}
 	else {  // Do DXT compression here and write.
 		// We have to find out how much we are writing first.
-- 
2.43.0


From 14c5b613040042ec47b68ed1703cfea748b00bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 21/81] fix: take the start position of an MNG save after the
 output is set

---
 DevIL/src-IL/src/il_mng.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_mng.cpp b/DevIL/src-IL/src/il_mng.cpp
index 87e912e..a693b7e 100644
--- a/DevIL/src-IL/src/il_mng.cpp
+++ b/DevIL/src-IL/src/il_mng.cpp
@@ -316,8 +316,9 @@ ILboolean ilSaveMng(const ILstring FileName)
 //! Writes a Mng to an already-opened file
 ILuint ilSaveMngF(ILHANDLE File)
 {
-	ILuint Pos = itellw();
+	ILuint Pos;
 	iSetOutputFile(File);
+	Pos = itellw();
 	if (iSaveMngInternal() == IL_FALSE)
 		return 0;  // Error occurred
 	return itellw() - Pos;  // Return the number of bytes written.
-- 
2.43.0


From 1f12e989ec9a50310539e0d219561dbf0b457851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 22/81] fix: route PCD, PCX, Scitex, DCX and the listed
 extensions alike for names, streams and lumps

---
 DevIL/src-IL/include/il_states.h |  4 +-
 DevIL/src-IL/src/il_io.cpp       | 93 ++++++++++++++++++++++++--------
 2 files changed, 73 insertions(+), 24 deletions(-)

diff --git a/DevIL/src-IL/include/il_states.h b/DevIL/src-IL/include/il_states.h
index 4add400..20e3810 100644
--- a/DevIL/src-IL/include/il_states.h
+++ b/DevIL/src-IL/include/il_states.h
@@ -149,7 +149,7 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_DCM
-	#define IL_DCM_EXT "dicom dcm"
+	#define IL_DCM_EXT "dicom dcm "
 #else
 	#define IL_DCM_EXT ""
 #endif
@@ -161,7 +161,7 @@ IL_HINTS ilHints;
 #endif
 
 #ifndef IL_NO_DPX
-	#define IL_DPX_EXT "dds "
+	#define IL_DPX_EXT "dpx "
 #else
 	#define IL_DPX_EXT ""
 #endif
diff --git a/DevIL/src-IL/src/il_io.cpp b/DevIL/src-IL/src/il_io.cpp
index 8390a4f..ac6d118 100644
--- a/DevIL/src-IL/src/il_io.cpp
+++ b/DevIL/src-IL/src/il_io.cpp
@@ -81,6 +81,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_CUT;
 	else if (!iStrCmp(Ext, IL_TEXT("ch")) || !iStrCmp(Ext, IL_TEXT("ct")) || !iStrCmp(Ext, IL_TEXT("sct")))
 		Type = IL_SCITEX;
+	else if (!iStrCmp(Ext, IL_TEXT("dcx")))
+		Type = IL_DCX;
 	else if (!iStrCmp(Ext, IL_TEXT("dcm")) || !iStrCmp(Ext, IL_TEXT("dicom")))
 		Type = IL_DICOM;
 	else if (!iStrCmp(Ext, IL_TEXT("dpx")))
@@ -135,6 +137,8 @@ ILenum ILAPIENTRY ilTypeFromExt(ILconst_string FileName)
 		Type = IL_PSP;
 	else if (!iStrCmp(Ext, IL_TEXT("pxr")))
 		Type = IL_PXR;
+	else if (!iStrCmp(Ext, IL_TEXT("raw")))
+		Type = IL_RAW;
 	else if (!iStrCmp(Ext, IL_TEXT("rot")))
 		Type = IL_ROT;
 	else if (!iStrCmp(Ext, IL_TEXT("sgi")) || !iStrCmp(Ext, IL_TEXT("bw")) ||
@@ -241,16 +245,16 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 		return IL_ICNS;
 	#endif
 
-	#ifndef IL_NO_ILBM
-	if (ilIsValidIlbmF(File))
-		return IL_ILBM;
-	#endif
-
 	#ifndef IL_NO_IWI
 	if (ilIsValidIwiF(File))
 		return IL_IWI;
 	#endif
 
+	#ifndef IL_NO_ILBM
+	if (ilIsValidIlbmF(File))
+		return IL_ILBM;
+	#endif
+
 	#ifndef IL_NO_JP2
 	if (ilIsValidJp2F(File))
 		return IL_JP2;
@@ -271,7 +275,7 @@ ILenum ILAPIENTRY ilDetermineTypeF(ILHANDLE File)
 		return IL_MDL;
 	#endif
 
-	#ifndef IL_NO_MDL
+	#ifndef IL_NO_MP3
 	if (ilIsValidMp3F(File))
 		return IL_MP3;
 	#endif
@@ -457,16 +461,16 @@ ILenum ILAPIENTRY ilDetermineTypeL(const void *Lump, ILuint Size)
 		return IL_PSP;
 	#endif
 
-	#ifndef IL_NO_SCITEX
-	if (ilIsValidScitexL(Lump, Size))
-		return IL_SCITEX;
-	#endif
-
 	#ifndef IL_NO_SGI
 	if (ilIsValidSgiL(Lump, Size))
 		return IL_SGI;
 	#endif
 
+	#ifndef IL_NO_SCITEX
+	if (ilIsValidScitexL(Lump, Size))
+		return IL_SCITEX;
+	#endif
+
 	#ifndef IL_NO_SUN
 	if (ilIsValidSunL(Lump, Size))
 		return IL_SUN;
@@ -1090,6 +1094,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			bRet = ilLoadDcx(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			bRet = ilLoadDicom(FileName);
@@ -1185,7 +1195,7 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 
 		#ifndef IL_NO_PCD
 		case IL_PCD:
-			ilLoadPcd(FileName);
+			bRet = ilLoadPcd(FileName);
 			break;
 		#endif
 
@@ -1243,6 +1253,12 @@ ILboolean ILAPIENTRY ilLoad(ILenum Type, ILconst_string FileName)
 			break;
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			bRet = ilLoadScitex(FileName);
+			break;
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			bRet = ilLoadSgi(FileName);
@@ -1385,6 +1401,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadCutF(File);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxF(File);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomF(File);
@@ -1527,6 +1548,11 @@ ILboolean ILAPIENTRY ilLoadF(ILenum Type, ILHANDLE File)
 			return ilLoadRotF(File);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexF(File);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiF(File);
@@ -1649,6 +1675,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadCutL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_DCX
+		case IL_DCX:
+			return ilLoadDcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_DICOM
 		case IL_DICOM:
 			return ilLoadDicomL(Lump, Size);
@@ -1791,6 +1822,11 @@ ILboolean ILAPIENTRY ilLoadL(ILenum Type, const void *Lump, ILuint Size)
 			return ilLoadRotL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_SCITEX
+		case IL_SCITEX:
+			return ilLoadScitexL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_SGI
 		case IL_SGI:
 			return ilLoadSgiL(Lump, Size);
@@ -2146,6 +2182,13 @@ ILboolean ILAPIENTRY ilLoadImage(ILconst_string FileName)
 		}
 		#endif
 
+		#ifndef IL_NO_RAW
+		if (!iStrCmp(Ext, IL_TEXT("raw"))) {
+			bRet = ilLoadRaw(FileName);
+			goto finish;
+		}
+		#endif
+
 		#ifndef IL_NO_ROT
 		if (!iStrCmp(Ext, IL_TEXT("rot"))) {
 			bRet = ilLoadRot(FileName);
@@ -2416,6 +2459,12 @@ ILuint ILAPIENTRY ilSaveF(ILenum Type, ILHANDLE File)
 			#endif
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			Ret = ilSavePcxF(File);
+			break;
+		#endif
+
 		#ifndef IL_NO_PNM
 		case IL_PNM:
 			Ret = ilSavePnmF(File);
@@ -2526,6 +2575,11 @@ ILuint ILAPIENTRY ilSaveL(ILenum Type, void *Lump, ILuint Size)
 			return ilSaveJpegL(Lump, Size);
 		#endif
 
+		#ifndef IL_NO_PCX
+		case IL_PCX:
+			return ilSavePcxL(Lump, Size);
+		#endif
+
 		#ifndef IL_NO_PNG
 		case IL_PNG:
 			return ilSavePngL(Lump, Size);
@@ -2608,7 +2662,7 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	}
 
 	#ifndef IL_NO_BMP
-	if (!iStrCmp(Ext, IL_TEXT("bmp"))) {
+	if (!iStrCmp(Ext, IL_TEXT("bmp")) || !iStrCmp(Ext, IL_TEXT("dib"))) {
 		bRet = ilSaveBmp(FileName);
 		goto finish;
 	}
@@ -2679,14 +2733,14 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 		bRet = ilSavePnm(FileName);
 		goto finish;
 	}
-	if (!iStrCmp(Ext, IL_TEXT("ppm"))) {
+	if (!iStrCmp(Ext, IL_TEXT("ppm")) || !iStrCmp(Ext, IL_TEXT("pnm"))) {
 		bRet = ilSavePnm(FileName);
 		goto finish;
 	}
 	#endif
 
 	#ifndef IL_NO_PSD
-	if (!iStrCmp(Ext, IL_TEXT("psd"))) {
+	if (!iStrCmp(Ext, IL_TEXT("psd")) || !iStrCmp(Ext, IL_TEXT("pdd"))) {
 		bRet = ilSavePsd(FileName);
 		goto finish;
 	}
@@ -2708,7 +2762,8 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	#endif
 
 	#ifndef IL_NO_TGA
-	if (!iStrCmp(Ext, IL_TEXT("tga"))) {
+	if (!iStrCmp(Ext, IL_TEXT("tga")) || !iStrCmp(Ext, IL_TEXT("vda")) ||
+		!iStrCmp(Ext, IL_TEXT("icb")) || !iStrCmp(Ext, IL_TEXT("vst"))) {
 		bRet = ilSaveTarga(FileName);
 		goto finish;
 	}
@@ -2735,12 +2790,6 @@ ILboolean ILAPIENTRY ilSaveImage(ILconst_string FileName)
 	}
 	#endif
 
-	#ifndef IL_NO_MNG
-	if (!iStrCmp(Ext, IL_TEXT("mng"))) {
-		bRet = ilSaveMng(FileName);
-		goto finish;
-	}
-	#endif
 
 	// Check if we just want to save the palette.
 	if (!iStrCmp(Ext, IL_TEXT("pal"))) {
-- 
2.43.0


From 1212a4fb701f7a08610b04c533115025b6241c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 23/81] fix: pushing attributes keeps strings, hints and
 errors; state ranges and queries in il_states

---
 DevIL/src-IL/include/il_internal.h |   1 +
 DevIL/src-IL/src/il_stack.cpp      |   2 +
 DevIL/src-IL/src/il_states.cpp     | 150 ++++++++++++++++++-----------
 3 files changed, 97 insertions(+), 56 deletions(-)

diff --git a/DevIL/src-IL/include/il_internal.h b/DevIL/src-IL/include/il_internal.h
index 4ea71a4..a7afc2d 100644
--- a/DevIL/src-IL/include/il_internal.h
+++ b/DevIL/src-IL/include/il_internal.h
@@ -179,6 +179,7 @@ ILuint		ilStrLen(ILconst_string Str);
 ILuint		ilCharStrLen(const char *Str);
 // Miscellaneous functions
 void					ilDefaultStates(void);
+void					ilDefaultHints(void);
 ILenum					iGetHint(ILenum Target);
 ILint					iGetInt(ILenum Mode);
 void					ilRemoveRegistered(void);
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 286e898..786d624 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -618,6 +618,8 @@ void ILAPIENTRY ilInit()
 	//ilSetMemory(NULL, NULL);  Now useless 3/4/2006 (due to modification in il_alloc.c)
 	ilSetError(IL_NO_ERROR);
 	ilDefaultStates();  // Set states to their defaults.
+	ilDefaultHints();
+	while (ilGetError() != IL_NO_ERROR);
 	// Sets default file-reading callbacks.
 	ilResetRead();
 	ilResetWrite();
diff --git a/DevIL/src-IL/src/il_states.cpp b/DevIL/src-IL/src/il_states.cpp
index 752624b..0c393b6 100644
--- a/DevIL/src-IL/src/il_states.cpp
+++ b/DevIL/src-IL/src/il_states.cpp
@@ -92,18 +92,69 @@ void ilDefaultStates()
 	ilStates[ilCurrentPos].ilUseNVidiaDXT = IL_FALSE;
 	ilStates[ilCurrentPos].ilUseSquishDXT = IL_FALSE;
 
+	return;
+}
 
 
-
+//! Set all hints to their defaults.
+void ilDefaultHints()
+{
 	ilHints.MemVsSpeedHint = IL_FASTEST;
 	ilHints.CompressHint = IL_USE_COMPRESSION;
 
-	while (ilGetError() != IL_NO_ERROR);
-
 	return;
 }
 
 
+// Returns a copy of a string.
+static char *iDupString(const char *String)
+{
+	char	*Dup;
+	ILuint	Size;
+
+	if (String == NULL)
+		return NULL;
+
+	Size = (ILuint)strlen(String) + 1;
+	Dup = (char*)ialloc(Size);
+	if (Dup != NULL)
+		memcpy(Dup, String, Size);
+
+	return Dup;
+}
+
+
+// Frees the strings of the current states.
+static void iFreeStateStrings()
+{
+	IL_STATES *State = &ilStates[ilCurrentPos];
+
+	ifree(State->ilTgaId);
+	ifree(State->ilTgaAuthName);
+	ifree(State->ilTgaAuthComment);
+	ifree(State->ilPngAuthName);
+	ifree(State->ilPngTitle);
+	ifree(State->ilPngDescription);
+	ifree(State->ilTifDescription);
+	ifree(State->ilTifHostComputer);
+	ifree(State->ilTifDocumentName);
+	ifree(State->ilTifAuthName);
+	ifree(State->ilCHeader);
+
+	State->ilTgaId = NULL;
+	State->ilTgaAuthName = NULL;
+	State->ilTgaAuthComment = NULL;
+	State->ilPngAuthName = NULL;
+	State->ilPngTitle = NULL;
+	State->ilPngDescription = NULL;
+	State->ilTifDescription = NULL;
+	State->ilTifHostComputer = NULL;
+	State->ilTifDocumentName = NULL;
+	State->ilTifAuthName = NULL;
+	State->ilCHeader = NULL;
+}
+
+
 //! Returns a constant string detailing aspects about this library.
 ILconst_string ILAPIENTRY ilGetString(ILenum StringName)
 {
@@ -158,13 +209,15 @@ char *iClipString(char *String, ILuint MaxLen)
 		return NULL;
 
 	Length = ilCharStrLen(String);  //ilStrLen(String);
+	if (Length > MaxLen)
+		Length = MaxLen;
 
 	Clipped = (char*)ialloc((MaxLen + 1) * sizeof(char) /*sizeof(ILchar)*/);  // Terminating NULL makes it +1.
 	if (Clipped == NULL) {
 		return NULL;
 	}
 
-	memcpy(Clipped, String, MaxLen * sizeof(char) /*sizeof(ILchar)*/);
+	memcpy(Clipped, String, Length * sizeof(char) /*sizeof(ILchar)*/);
 	Clipped[Length] = 0;
 
 	return Clipped;
@@ -464,6 +517,7 @@ void ILAPIENTRY ilGetIntegerv(ILenum Mode, ILint *Param)
 		case IL_ACTIVE_IMAGE:
 		case IL_ACTIVE_MIPMAP:
 		case IL_ACTIVE_LAYER:
+		case IL_ACTIVE_FACE:
 			*Param = iGetActiveNum(Mode);
 			break;
 
@@ -654,16 +708,22 @@ void ILAPIENTRY iGetIntegervImage(ILimage *Image, ILenum Mode, ILint *Param)
              {
                   case IL_PAL_RGB24:
                       *Param = IL_RGB;
+                      break;
                   case IL_PAL_RGB32:
                       *Param = IL_RGBA; // Not sure
+                      break;
                   case IL_PAL_RGBA32:
                       *Param = IL_RGBA;
+                      break;
                   case IL_PAL_BGR24:
                       *Param = IL_BGR;
+                      break;
                   case IL_PAL_BGR32:
                       *Param = IL_BGRA; // Not sure
+                      break;
                   case IL_PAL_BGRA32:
                       *Param = IL_BGRA;
+                      break;
              }
              break;
         default:
@@ -812,52 +872,28 @@ void ILAPIENTRY ilPushAttrib(ILuint Bits)
 		ilStates[ilCurrentPos].ilBmpRle = ilStates[ilCurrentPos-1].ilBmpRle;
 		ilStates[ilCurrentPos].ilSgiRle = ilStates[ilCurrentPos-1].ilSgiRle;
 		ilStates[ilCurrentPos].ilJpgFormat = ilStates[ilCurrentPos-1].ilJpgFormat;
+		ilStates[ilCurrentPos].ilJpgProgressive = ilStates[ilCurrentPos-1].ilJpgProgressive;
+		ilStates[ilCurrentPos].ilVtfCompression = ilStates[ilCurrentPos-1].ilVtfCompression;
 		ilStates[ilCurrentPos].ilDxtcFormat = ilStates[ilCurrentPos-1].ilDxtcFormat;
 		ilStates[ilCurrentPos].ilPcdPicNum = ilStates[ilCurrentPos-1].ilPcdPicNum;
 
 		ilStates[ilCurrentPos].ilPngAlphaIndex = ilStates[ilCurrentPos-1].ilPngAlphaIndex;
 
 		// Strings
-		if (ilStates[ilCurrentPos].ilTgaId)
-			ifree(ilStates[ilCurrentPos].ilTgaId);
-		if (ilStates[ilCurrentPos].ilTgaAuthName)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-		if (ilStates[ilCurrentPos].ilTgaAuthComment)
-			ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-		if (ilStates[ilCurrentPos].ilPngAuthName)
-			ifree(ilStates[ilCurrentPos].ilPngAuthName);
-		if (ilStates[ilCurrentPos].ilPngTitle)
-			ifree(ilStates[ilCurrentPos].ilPngTitle);
-		if (ilStates[ilCurrentPos].ilPngDescription)
-			ifree(ilStates[ilCurrentPos].ilPngDescription);
-
-		//2003-09-01: added tif strings
-		if (ilStates[ilCurrentPos].ilTifDescription)
-			ifree(ilStates[ilCurrentPos].ilTifDescription);
-		if (ilStates[ilCurrentPos].ilTifHostComputer)
-			ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-		if (ilStates[ilCurrentPos].ilTifDocumentName)
-			ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-		if (ilStates[ilCurrentPos].ilTifAuthName)
-			ifree(ilStates[ilCurrentPos].ilTifAuthName);
-
-		if (ilStates[ilCurrentPos].ilCHeader)
-			ifree(ilStates[ilCurrentPos].ilCHeader);
-
-		ilStates[ilCurrentPos].ilTgaId = strdup(ilStates[ilCurrentPos-1].ilTgaId);
-		ilStates[ilCurrentPos].ilTgaAuthName = strdup(ilStates[ilCurrentPos-1].ilTgaAuthName);
-		ilStates[ilCurrentPos].ilTgaAuthComment = strdup(ilStates[ilCurrentPos-1].ilTgaAuthComment);
-		ilStates[ilCurrentPos].ilPngAuthName = strdup(ilStates[ilCurrentPos-1].ilPngAuthName);
-		ilStates[ilCurrentPos].ilPngTitle = strdup(ilStates[ilCurrentPos-1].ilPngTitle);
-		ilStates[ilCurrentPos].ilPngDescription = strdup(ilStates[ilCurrentPos-1].ilPngDescription);
+		ilStates[ilCurrentPos].ilTgaId = iDupString(ilStates[ilCurrentPos-1].ilTgaId);
+		ilStates[ilCurrentPos].ilTgaAuthName = iDupString(ilStates[ilCurrentPos-1].ilTgaAuthName);
+		ilStates[ilCurrentPos].ilTgaAuthComment = iDupString(ilStates[ilCurrentPos-1].ilTgaAuthComment);
+		ilStates[ilCurrentPos].ilPngAuthName = iDupString(ilStates[ilCurrentPos-1].ilPngAuthName);
+		ilStates[ilCurrentPos].ilPngTitle = iDupString(ilStates[ilCurrentPos-1].ilPngTitle);
+		ilStates[ilCurrentPos].ilPngDescription = iDupString(ilStates[ilCurrentPos-1].ilPngDescription);
 
 		//2003-09-01: added tif strings
-		ilStates[ilCurrentPos].ilTifDescription = strdup(ilStates[ilCurrentPos-1].ilTifDescription);
-		ilStates[ilCurrentPos].ilTifHostComputer = strdup(ilStates[ilCurrentPos-1].ilTifHostComputer);
-		ilStates[ilCurrentPos].ilTifDocumentName = strdup(ilStates[ilCurrentPos-1].ilTifDocumentName);
-		ilStates[ilCurrentPos].ilTifAuthName = strdup(ilStates[ilCurrentPos-1].ilTifAuthName);
+		ilStates[ilCurrentPos].ilTifDescription = iDupString(ilStates[ilCurrentPos-1].ilTifDescription);
+		ilStates[ilCurrentPos].ilTifHostComputer = iDupString(ilStates[ilCurrentPos-1].ilTifHostComputer);
+		ilStates[ilCurrentPos].ilTifDocumentName = iDupString(ilStates[ilCurrentPos-1].ilTifDocumentName);
+		ilStates[ilCurrentPos].ilTifAuthName = iDupString(ilStates[ilCurrentPos-1].ilTifAuthName);
 
-		ilStates[ilCurrentPos].ilCHeader = strdup(ilStates[ilCurrentPos-1].ilCHeader);
+		ilStates[ilCurrentPos].ilCHeader = iDupString(ilStates[ilCurrentPos-1].ilCHeader);
 	}
 
 	return;
@@ -876,6 +912,7 @@ void ILAPIENTRY ilPopAttrib()
 	}
 
 	// Should we check here to see if ilCurrentPos is too large?
+	iFreeStateStrings();
 	ilCurrentPos--;
 
 	return;
@@ -960,60 +997,60 @@ void ILAPIENTRY ilSetString(ILenum Mode, const char *String)
 		case IL_TGA_ID_STRING:
 			if (ilStates[ilCurrentPos].ilTgaId)
 				ifree(ilStates[ilCurrentPos].ilTgaId);
-			ilStates[ilCurrentPos].ilTgaId = strdup(String);
+			ilStates[ilCurrentPos].ilTgaId = iDupString(String);
 			break;
 		case IL_TGA_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthName)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthName);
-			ilStates[ilCurrentPos].ilTgaAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthName = iDupString(String);
 			break;
 		case IL_TGA_AUTHCOMMENT_STRING:
 			if (ilStates[ilCurrentPos].ilTgaAuthComment)
 				ifree(ilStates[ilCurrentPos].ilTgaAuthComment);
-			ilStates[ilCurrentPos].ilTgaAuthComment = strdup(String);
+			ilStates[ilCurrentPos].ilTgaAuthComment = iDupString(String);
 			break;
 		case IL_PNG_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilPngAuthName)
 				ifree(ilStates[ilCurrentPos].ilPngAuthName);
-			ilStates[ilCurrentPos].ilPngAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilPngAuthName = iDupString(String);
 			break;
 		case IL_PNG_TITLE_STRING:
 			if (ilStates[ilCurrentPos].ilPngTitle)
 				ifree(ilStates[ilCurrentPos].ilPngTitle);
-			ilStates[ilCurrentPos].ilPngTitle = strdup(String);
+			ilStates[ilCurrentPos].ilPngTitle = iDupString(String);
 			break;
 		case IL_PNG_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilPngDescription)
 				ifree(ilStates[ilCurrentPos].ilPngDescription);
-			ilStates[ilCurrentPos].ilPngDescription = strdup(String);
+			ilStates[ilCurrentPos].ilPngDescription = iDupString(String);
 			break;
 
 		//2003-09-01: added tif strings
 		case IL_TIF_DESCRIPTION_STRING:
 			if (ilStates[ilCurrentPos].ilTifDescription)
 				ifree(ilStates[ilCurrentPos].ilTifDescription);
-			ilStates[ilCurrentPos].ilTifDescription = strdup(String);
+			ilStates[ilCurrentPos].ilTifDescription = iDupString(String);
 			break;
 		case IL_TIF_HOSTCOMPUTER_STRING:
 			if (ilStates[ilCurrentPos].ilTifHostComputer)
 				ifree(ilStates[ilCurrentPos].ilTifHostComputer);
-			ilStates[ilCurrentPos].ilTifHostComputer = strdup(String);
+			ilStates[ilCurrentPos].ilTifHostComputer = iDupString(String);
 			break;
 		case IL_TIF_DOCUMENTNAME_STRING:
 						if (ilStates[ilCurrentPos].ilTifDocumentName)
 				ifree(ilStates[ilCurrentPos].ilTifDocumentName);
-			ilStates[ilCurrentPos].ilTifDocumentName = strdup(String);
+			ilStates[ilCurrentPos].ilTifDocumentName = iDupString(String);
 			break;
 		case IL_TIF_AUTHNAME_STRING:
 			if (ilStates[ilCurrentPos].ilTifAuthName)
 				ifree(ilStates[ilCurrentPos].ilTifAuthName);
-			ilStates[ilCurrentPos].ilTifAuthName = strdup(String);
+			ilStates[ilCurrentPos].ilTifAuthName = iDupString(String);
 			break;
 
 		case IL_CHEAD_HEADER_STRING:
 			if (ilStates[ilCurrentPos].ilCHeader)
 				ifree(ilStates[ilCurrentPos].ilCHeader);
-			ilStates[ilCurrentPos].ilCHeader = strdup(String);
+			ilStates[ilCurrentPos].ilCHeader = iDupString(String);
 			break;
 
 		default:
@@ -1091,7 +1128,7 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 				break;
 			}
 			iCurImage->CubeFlags = Param;
-			break;
+			return;
  
 		// Format specific values
 		case IL_BMP_RLE:
@@ -1101,7 +1138,8 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_DXTC_FORMAT:
-			if (Param >= IL_DXT1 || Param <= IL_DXT5 || Param == IL_DXT1A) {
+			if ((Param >= IL_DXT1 && Param <= IL_DXT5) || Param == IL_3DC || Param == IL_RXGB
+				|| Param == IL_ATI1N || Param == IL_DXT1A) {
 				ilStates[ilCurrentPos].ilDxtcFormat = Param;
 				return;
 			}
@@ -1125,13 +1163,13 @@ void ILAPIENTRY ilSetInteger(ILenum Mode, ILint Param)
 			}
 			break;
 		case IL_PCD_PICNUM:
-			if (Param >= 0 || Param <= 2) {
+			if (Param >= 0 && Param <= 2) {
 				ilStates[ilCurrentPos].ilPcdPicNum = Param;
 				return;
 			}
 			break;
 		case IL_PNG_ALPHA_INDEX:
-			if (Param >= -1 || Param <= 255) {
+			if (Param >= -1 && Param <= 255) {
 				ilStates[ilCurrentPos].ilPngAlphaIndex=Param;
 				return;
 			}
-- 
2.43.0


From 7991b13be862b292f718ca7934b62e07a4d13d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 24/81] fix: a full error queue drops the oldest error, not the
 second newest

---
 DevIL/src-IL/src/il_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_error.cpp b/DevIL/src-IL/src/il_error.cpp
index 08796f6..159c7df 100644
--- a/DevIL/src-IL/src/il_error.cpp
+++ b/DevIL/src-IL/src/il_error.cpp
@@ -29,7 +29,7 @@ ILAPI void ILAPIENTRY ilSetError(ILenum Error)
 
 	ilErrorPlace++;
 	if (ilErrorPlace >= IL_ERROR_STACK_SIZE) {
-		for (i = 0; i < IL_ERROR_STACK_SIZE - 2; i++) {
+		for (i = 0; i < IL_ERROR_STACK_SIZE - 1; i++) {
 			ilErrorNum[i] = ilErrorNum[i+1];
 		}
 		ilErrorPlace = IL_ERROR_STACK_SIZE - 1;
-- 
2.43.0


From f12e10acecdfb2502816b6958ef110a2f9d8c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 25/81] fix: iluGetInteger answers the placement and rejects a
 null pointer

---
 DevIL/src-ILU/src/ilu_states.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_states.cpp b/DevIL/src-ILU/src/ilu_states.cpp
index f3a998c..cdba34b 100644
--- a/DevIL/src-ILU/src/ilu_states.cpp
+++ b/DevIL/src-ILU/src/ilu_states.cpp
@@ -38,6 +38,11 @@ ILstring ILAPIENTRY iluGetString(ILenum StringName)
 
 void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 {
+	if (Param == NULL) {
+		ilSetError(ILU_INVALID_PARAM);
+		return;
+	}
+
 	switch (Mode)
 	{
 		case ILU_VERSION_NUM:
@@ -48,6 +53,10 @@ void ILAPIENTRY iluGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = iluFilter;
 			break;
 
+		case ILU_PLACEMENT:
+			*Param = iluPlacement;
+			break;
+
 		default:
 			ilSetError(ILU_INVALID_ENUM);
 	}
-- 
2.43.0


From b93800376e7a179d2d21d626ae983deddc1790bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 26/81] fix: ILUT state queries, S3TC format range and pushed
 defaults

---
 DevIL/src-ILUT/src/ilut_states.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-ILUT/src/ilut_states.cpp b/DevIL/src-ILUT/src/ilut_states.cpp
index 0c88430..896a476 100644
--- a/DevIL/src-ILUT/src/ilut_states.cpp
+++ b/DevIL/src-ILUT/src/ilut_states.cpp
@@ -228,7 +228,7 @@ void ILAPIENTRY ilutGetIntegerv(ILenum Mode, ILint *Param)
 			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
 			break;
 		case ILUT_GL_GEN_S3TC:
-			*Param = ilutStates[ilutCurrentPos].ilutUseS3TC;
+			*Param = ilutStates[ilutCurrentPos].ilutGenS3TC;
 			break;
 		case ILUT_S3TC_FORMAT:
 			*Param = ilutStates[ilutCurrentPos].ilutDXTCFormat;
@@ -270,6 +270,7 @@ void ILAPIENTRY ilutSetInteger(ILenum Mode, ILint Param)
 				ilutStates[ilutCurrentPos].ilutDXTCFormat = Param;
 				return;
 			}
+			break;
 
 //#ifdef ILUT_USE_OPENGL
 		case ILUT_MAXTEX_WIDTH:
@@ -354,6 +355,8 @@ void ILAPIENTRY ilutPushAttrib(ILuint Bits)
 
 	//memcpy(&ilutStates[ilutCurrentPos], &ilutStates[ilutCurrentPos - 1], sizeof(ILUT_STATES));
 
+	ilutDefaultStates();
+
 	if (Bits & ILUT_OPENGL_BIT) {
 		ilutStates[ilutCurrentPos].ilutUsePalettes = ilutStates[ilutCurrentPos-1].ilutUsePalettes;
 		ilutStates[ilutCurrentPos].ilutOglConv = ilutStates[ilutCurrentPos-1].ilutOglConv;
-- 
2.43.0


From c68cce09a41f0f134a06d068e22b1261e48d4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 27/81] fix: a rejected WAL leaves the current image bound and
 frees its mipmaps once

---
 DevIL/src-IL/src/il_wal.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_wal.cpp b/DevIL/src-IL/src/il_wal.cpp
index 1a70b0c..af7eba0 100644
--- a/DevIL/src-IL/src/il_wal.cpp
+++ b/DevIL/src-IL/src/il_wal.cpp
@@ -76,7 +76,7 @@ ILboolean ilLoadWalL(const void *Lump, ILuint Size)
 ILboolean iLoadWalInternal()
 {
 	WALHEAD	Header;
-	ILimage	*Mipmaps[3], *CurImage;
+	ILimage	*Mipmaps[3] = { NULL, NULL, NULL }, *CurImage;
 	ILuint	i, NewW, NewH;
 
 	if (iCurImage == NULL) {
@@ -127,11 +127,6 @@ ILboolean iLoadWalInternal()
 	}
 
 	iCurImage = CurImage;
-	ilCloseImage(iCurImage->Mipmaps);
-	iCurImage->Mipmaps = Mipmaps[0];
-	Mipmaps[0]->Mipmaps = Mipmaps[1];
-	Mipmaps[1]->Mipmaps = Mipmaps[2];
-
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE)
@@ -154,10 +149,16 @@ ILboolean iLoadWalInternal()
 			goto cleanup_error;
 	}
 
+	ilCloseImage(iCurImage->Mipmaps);
+	iCurImage->Mipmaps = Mipmaps[0];
+	Mipmaps[0]->Mipmaps = Mipmaps[1];
+	Mipmaps[1]->Mipmaps = Mipmaps[2];
+
 	// Fixes all images, even mipmaps.
 	return ilFixImage();
 
 cleanup_error:
+	iCurImage = CurImage;
 	for (i = 0; i < 3; i++) {
 		ilCloseImage(Mipmaps[i]);
 	}
-- 
2.43.0


From 07503805ef43425bfb5e72bb722f6fe807fc0108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 28/81] fix: report failed conversions, copies and allocations
 instead of returning success

---
 DevIL/src-IL/src/il_blp.cpp      |  3 +-
 DevIL/src-IL/src/il_convert.cpp  | 11 +++--
 DevIL/src-IL/src/il_devil.cpp    |  4 +-
 DevIL/src-IL/src/il_files.cpp    |  6 ++-
 DevIL/src-IL/src/il_mdl.cpp      |  5 +-
 DevIL/src-IL/src/il_psd.cpp      |  3 +-
 DevIL/src-IL/src/il_register.cpp | 12 ++++-
 DevIL/src-IL/src/il_sgi.cpp      |  6 +--
 DevIL/src-IL/src/il_targa.cpp    |  9 +++-
 DevIL/src-IL/src/il_tiff.cpp     | 11 +++--
 DevIL/src-IL/src/il_vtf.cpp      |  9 ++--
 DevIL/src-ILU/src/ilu_filter.cpp | 84 ++++++++++++++++++++------------
 DevIL/src-ILU/src/ilu_manip.cpp  |  5 +-
 DevIL/src-ILU/src/ilu_mipmap.cpp |  4 +-
 DevIL/src-ILU/src/ilu_scale.cpp  | 27 +++++-----
 15 files changed, 129 insertions(+), 70 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index a234199..c405324 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -284,7 +284,8 @@ ILboolean iLoadBlpInternal(void)
 								return IL_FALSE;
 
 							// Copy the palette from the first image before we change our Image pointer.
-							iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal);
+							if (!iCopyPalette(&Image->Mipmaps->Pal, &Image->Pal))
+								return IL_FALSE;
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
 						}
diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index a482863..2962a1a 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -30,7 +30,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		return IL_FALSE;
 	}
 
-	ilCopyImageAttr(NewImage, Image);
+	if (!ilCopyImageAttr(NewImage, Image)) {
+		ilCloseImage(NewImage);
+		return NULL;
+	}
 
 	if (!Image->Pal.Palette || !Image->Pal.PalSize || Image->Pal.PalType == IL_PAL_NONE || Image->Bpp != 1) {
 		ilCloseImage(NewImage);
@@ -401,8 +404,10 @@ ILboolean ILAPIENTRY ilConvertImage(ILenum DestFormat, ILenum DestType)
 		}
 	}
 
-	if (ilIsEnabled(IL_USE_KEY_COLOUR)) {
-		ilAddAlphaKey(iCurImage);
+	// The key colour applies to images without an alpha channel.
+	if (ilIsEnabled(IL_USE_KEY_COLOUR) && (iCurImage->Bpp == 3 || iCurImage->Format == IL_COLOUR_INDEX)) {
+		if (!ilAddAlphaKey(iCurImage))
+			return IL_FALSE;
 	}
 
 	pCurImage = iCurImage;
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index c26988f..6bf9dec 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -895,7 +895,9 @@ ILboolean iCopySubImage(ILimage *Dest, ILimage *Src)
 	SrcTemp = Src;
 	
 	do {
-		ilCopyImageAttr(DestTemp, SrcTemp);
+		if (!ilCopyImageAttr(DestTemp, SrcTemp)) {
+			return IL_FALSE;
+		}
 		DestTemp->Data = (ILubyte*)ialloc(SrcTemp->SizeOfData);
 		if (DestTemp->Data == NULL) {
 			return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 988005f..33c9974 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -461,7 +461,8 @@ ILint ILAPIENTRY iGetcFile(void)
 		return GetcProc(FileRead);
 	}
 	if (CachePos >= CacheSize) {
-		iPreCache(CacheSize);
+		if (!iPreCache(CacheSize))
+			return IL_EOF;
 	}
 
 	CacheBytesRead++;
@@ -517,7 +518,8 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 			TotalBytes += BytesCopied;
 			CachePos += BytesCopied;
 			if (TotalBytes < BuffSize) {
-				iPreCache(CacheSize);
+				if (!iPreCache(CacheSize))
+					break;
 			}
 		}
 	}
diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 7a0c520..316a5e5 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -210,7 +210,10 @@ ILboolean iLoadMdlInternal()
 		}
 
 		if (ilGetBoolean(IL_CONV_PAL) == IL_TRUE) {
-			ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+			if (!ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE)) {
+				iCurImage = BaseImage;
+				return IL_FALSE;
+			}
 		}
 
 		iseek(Position, IL_SEEK_SET);
diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 2c9f994..e3ec086 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -344,7 +344,8 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	if (!PsdGetData(Head, iCurImage->Data, (ILboolean)Compressed))
 		goto cleanup_error;
 
-	ParseResources(ResourceSize, Resources);
+	if (!ParseResources(ResourceSize, Resources))
+		goto cleanup_error;
 	ifree(Resources);
 	Resources = NULL;
 
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index 6867320..df3361d 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -40,6 +40,11 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (LoadProcs == NULL) {
 		LoadProcs = NewNode;
@@ -48,7 +53,6 @@ ILboolean ILAPIENTRY ilRegisterLoad(ILconst_string Ext, IL_LOADPROC Load) {
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Load = Load;
 	NewNode->Next = NULL;
 
@@ -74,6 +78,11 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 	if (NewNode == NULL) {
 		return IL_FALSE;
 	}
+	NewNode->Ext = ilStrDup(Ext);
+	if (NewNode->Ext == NULL) {
+		ifree(NewNode);
+		return IL_FALSE;
+	}
 
 	if (SaveProcs == NULL) {
 		SaveProcs = NewNode;
@@ -82,7 +91,6 @@ ILboolean ILAPIENTRY ilRegisterSave(ILconst_string Ext, IL_SAVEPROC Save)
 		TempNode->Next = NewNode;
 	}
 
-	NewNode->Ext = ilStrDup(Ext);
 	NewNode->Save = Save;
 	NewNode->Next = NULL;
 
diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 06f4ad0..85bc5cb 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -562,7 +562,7 @@ ILenum DetermineSgiType(ILenum Type)
 ILboolean iSaveSgiInternal()
 {
 	ILuint		i, c;
-	ILboolean	Compress;
+	ILboolean	Compress, bRet = IL_TRUE;
 	ILimage		*Temp = iCurImage;
 	ILubyte		*TempData;
 
@@ -680,7 +680,7 @@ ILboolean iSaveSgiInternal()
 		}
 	}
 	else {
-		iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
+		bRet = iSaveRleSgi(TempData, Temp->Width, Temp->Height, Temp->Bpp, Temp->Bps);
 	}
 
 
@@ -689,7 +689,7 @@ ILboolean iSaveSgiInternal()
 	if (Temp != iCurImage)
 		ilCloseImage(Temp);
 
-	return IL_TRUE;
+	return bRet;
 }
 
 /*----------------------------------------------------------------------------*/
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 0289665..d043851 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -219,6 +219,9 @@ ILboolean iLoadTargaInternal()
 			return IL_FALSE;
 	}
 	
+	if (!bTarga)
+		return IL_FALSE;
+
 	// @JASON Extra Code to manipulate the image depending on
 	// the Image Descriptor's origin bits.
 	iOrigin = Header.ImageDesc & IMAGEDESC_ORIGIN_MASK;
@@ -231,7 +234,8 @@ ILboolean iLoadTargaInternal()
 			
 		case IMAGEDESC_TOPRIGHT:
 			iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
-			iMirror();
+			if (!iMirror())
+				return IL_FALSE;
 			break;
 			
 		case IMAGEDESC_BOTLEFT:
@@ -240,7 +244,8 @@ ILboolean iLoadTargaInternal()
 			
 		case IMAGEDESC_BOTRIGHT:
 			iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
-			iMirror();
+			if (!iMirror())
+				return IL_FALSE;
 			break;
 	}
 	
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index aec9883..c45f5d4 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -267,6 +267,7 @@ ILboolean iLoadTiffInternal()
 	ILuint	 i, ProfileLen, DirCount = 0;
 	void	 *Buffer;
 	ILimage  *Image, *TempImage;
+	ILboolean bConverted = IL_TRUE;
 	ILushort si;
         ILfloat  x_position, x_resolution, y_position, y_resolution;
 	//TIFFRGBAImage img;
@@ -641,15 +642,15 @@ ILboolean iLoadTiffInternal()
 				case 1:
 					//added 2003-08-31 to keep palettized tiffs colored
 					if(photometric != 3)
-						ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
+						bConverted = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE);
 					else //strip alpha as tiff supports no alpha palettes
-						ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+						bConverted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 					break;
 					
 				case 3:
 					//TODO: why the ifdef??
 #ifdef __LITTLE_ENDIAN__
-					ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
+					bConverted = ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE);
 #endif			
 					break; 
 					
@@ -670,6 +671,10 @@ ILboolean iLoadTiffInternal()
 					break;
 			}
 			iCurImage = TempImage;
+			if (!bConverted) {
+				TIFFClose(tif);
+				return IL_FALSE;
+			}
 			
 		} //else not directly supported format
 
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 3f9dda3..8a7b2cd 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -376,7 +376,8 @@ ILboolean iLoadVtfInternal(void)
 		Image->Origin = IL_ORIGIN_UPPER_LEFT;
 
 		// Create our faces and mipmaps for each frame.
-		VtfInitFacesMipmaps(Image, NumFaces, &Head);
+		if (!VtfInitFacesMipmaps(Image, NumFaces, &Head))
+			return IL_FALSE;
 	}
 
 	// We want to put the smallest mipmap at the end, but it is first in the file, so we count backwards.
@@ -654,7 +655,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 	ILuint	Face;
 
 	// Initialize mipmaps under the base image.
-	VtfInitMipmaps(BaseImage, Header);
+	if (!VtfInitMipmaps(BaseImage, Header))
+		return IL_FALSE;
 	Image = BaseImage;
 
 	// We have an environment map.
@@ -674,7 +676,8 @@ ILboolean VtfInitFacesMipmaps(ILimage *BaseImage, ILuint NumFaces, VTFHEAD *Head
 		Image->CubeFlags = GetFaceFlag(Face);
 
 		// Now we can initialize the mipmaps under each face.
-		VtfInitMipmaps(Image, Header);
+		if (!VtfInitMipmaps(Image, Header))
+			return IL_FALSE;
 	}
 
 	return IL_TRUE;
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index bbc4f23..fb3f834 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -27,7 +27,8 @@ ILboolean ILAPIENTRY iluPixelize(ILuint PixSize)
 		PixSize = 1;
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX)
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 
 	RegionMask = iScanFill();
 
@@ -424,12 +425,14 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 
@@ -460,9 +463,9 @@ ILboolean ILAPIENTRY iluEdgeDetectP()
 	ifree(VPass);
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -483,12 +486,14 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	HPass = Filter(iluCurImage, filter_h_sobel, filter_h_sobel_scale, filter_h_sobel_bias);
@@ -518,9 +523,9 @@ ILboolean ILAPIENTRY iluEdgeDetectS()
 	ifree(VPass);
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -541,12 +546,14 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	for (i = 0; i < Iter; i++) {
@@ -558,9 +565,9 @@ ILboolean ILAPIENTRY iluBlurAvg(ILuint Iter)
 	}
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -581,12 +588,14 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	for (i = 0; i < Iter; i++) {
@@ -598,9 +607,9 @@ ILboolean ILAPIENTRY iluBlurGaussian(ILuint Iter)
 	}
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -620,12 +629,14 @@ ILboolean ILAPIENTRY iluEmboss()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	Data = Filter(iluCurImage, filter_emboss, filter_emboss_scale, filter_emboss_bias);
@@ -635,9 +646,9 @@ ILboolean ILAPIENTRY iluEmboss()
 	iluCurImage->Data = Data;
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -688,12 +699,14 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 
 	Data = Filter(iluCurImage, filter_embossedge, filter_embossedge_scale, filter_embossedge_bias);
@@ -703,9 +716,9 @@ ILboolean ILAPIENTRY iluEdgeDetectE()
 	iluCurImage->Data = Data;
 
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 
 	return IL_TRUE;
 }
@@ -1264,11 +1277,18 @@ ILboolean ILAPIENTRY iluSharpen(ILfloat Factor, ILuint Iter)
 	if (Blur == NULL) {
 		return IL_FALSE;
 	}
-	ilCopyImageAttr(Blur, CurImage);
+	if (!ilCopyImageAttr(Blur, CurImage)) {
+		ilCloseImage(Blur);
+		return IL_FALSE;
+	}
 
 	ilCopyPixels(0, 0, 0, CurImage->Width, CurImage->Height, 1, CurImage->Format, CurImage->Type, Blur->Data);
 	ilSetCurImage(Blur);
-	iluBlurGaussian(1);
+	if (!iluBlurGaussian(1)) {
+		ilSetCurImage(CurImage);
+		ilCloseImage(Blur);
+		return IL_FALSE;
+	}
 
 	for (i = 0; i < Iter; i++) {
 		iIntExtImg(Blur, CurImage, Factor);
@@ -1294,11 +1314,13 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
 		Palette = IL_TRUE;
-		ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(ilGetPalBaseType(iluCurImage->Pal.PalType), IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	} else if (iluCurImage->Type > IL_UNSIGNED_BYTE) {
 		Converted = IL_TRUE;
 		Type = iluCurImage->Type;
-		ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE);
+		if (!ilConvertImage(iluCurImage->Format, IL_UNSIGNED_BYTE))
+			return IL_FALSE;
 	}
 	
 	Data = Filter(iluCurImage, matrix, scale, bias);
@@ -1308,9 +1330,9 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	iluCurImage->Data = Data;
 	
 	if (Palette)
-		ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
+		return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 	else if (Converted)
-		ilConvertImage(iluCurImage->Format, Type);
+		return ilConvertImage(iluCurImage->Format, Type);
 	
 	return IL_TRUE;
 }
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 2ee0cdd..1f080fb 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -207,7 +207,10 @@ ILboolean ILAPIENTRY iluEnlargeCanvas(ILuint Width, ILuint Height, ILuint Depth)
 	}
 	iluCurImage->Origin = Origin;
 
-	ilClearImage();
+	if (!ilClearImage()) {
+		ifree(Data);
+		return IL_FALSE;
+	}
 	/*ilGetClear(Clear);
 	if (iluCurImage->Bpp == 1) {
 		memset(iluCurImage->Data, Clear[3], iluCurImage->SizeOfData);
diff --git a/DevIL/src-ILU/src/ilu_mipmap.cpp b/DevIL/src-ILU/src/ilu_mipmap.cpp
index 94efbf5..42c6509 100644
--- a/DevIL/src-ILU/src/ilu_mipmap.cpp
+++ b/DevIL/src-ILU/src/ilu_mipmap.cpp
@@ -35,9 +35,7 @@ ILboolean iBuildMipmaps(ILimage *Parent, ILuint Width, ILuint Height, ILuint Dep
 	if (Parent->Mipmaps == NULL)
 		return IL_FALSE;
 
-	iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
-
-	return IL_TRUE;
+	return iBuildMipmaps(Parent->Mipmaps, Parent->Mipmaps->Width >> 1, Parent->Mipmaps->Height >> 1, Parent->Mipmaps->Depth >> 1);
 }
 
 
diff --git a/DevIL/src-ILU/src/ilu_scale.cpp b/DevIL/src-ILU/src/ilu_scale.cpp
index 7491b32..8fab7d4 100644
--- a/DevIL/src-ILU/src/ilu_scale.cpp
+++ b/DevIL/src-ILU/src/ilu_scale.cpp
@@ -88,27 +88,27 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 				{
 					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, Width, iluCurImage->Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
+					if (Temp == NULL)
+						return IL_FALSE;
+					if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 						ilCloseImage(Temp);
+						return IL_FALSE;
 					}
+					iluCurImage->Origin = Origin;
+					ilCloseImage(Temp);
 				}
 				else if (iluCurImage->Height > Height) // shrink height first
 				{
 					Origin = iluCurImage->Origin;
 					Temp = iluScale_(iluCurImage, iluCurImage->Width, Height, iluCurImage->Depth);
-					if (Temp != NULL) {
-						if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
-							ilCloseImage(Temp);
-							return IL_FALSE;
-						}
-						iluCurImage->Origin = Origin;
+					if (Temp == NULL)
+						return IL_FALSE;
+					if (!ilTexImage(Temp->Width, Temp->Height, Temp->Depth, Temp->Bpp, Temp->Format, Temp->Type, Temp->Data)) {
 						ilCloseImage(Temp);
+						return IL_FALSE;
 					}
+					iluCurImage->Origin = Origin;
+					ilCloseImage(Temp);
 				}
 
 				return (ILboolean)iluScaleAdvanced(Width, Height, iluFilter);
@@ -130,7 +130,8 @@ ILboolean ILAPIENTRY iluScale(ILuint Width, ILuint Height, ILuint Depth)
 		if (UsePal) {
 			if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE))
 				return IL_FALSE;
-			ilConvertPal(PalType);
+			if (!ilConvertPal(PalType))
+				return IL_FALSE;
 		}
 		return IL_TRUE;
 	}
-- 
2.43.0


From 23592a729b675f888e70be5be5473f80cdfb4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 29/81] fix: an SGI save writes at most 79 bytes of the file
 name

---
 DevIL/src-IL/src/il_sgi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_sgi.cpp b/DevIL/src-IL/src/il_sgi.cpp
index 85bc5cb..504422c 100644
--- a/DevIL/src-IL/src/il_sgi.cpp
+++ b/DevIL/src-IL/src/il_sgi.cpp
@@ -638,7 +638,7 @@ ILboolean iSaveSgiInternal()
 
 	if (FName) {
 		c = ilCharStrLen(FName);
-		c = c < 79 ? 79 : c;
+		c = c < 79 ? c : 79;
 		iwrite(FName, 1, c);
 		c = 80 - c;
 		for (i = 0; i < c; i++) {
-- 
2.43.0


From 5b632f9763ac9d52ecc2f8c5414e7f797a7b5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 30/81] fix: VTF and IFF loads fail when a mipmap or tile could
 not be read

---
 DevIL/src-IL/src/il_iff.cpp | 2 +-
 DevIL/src-IL/src/il_vtf.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_iff.cpp b/DevIL/src-IL/src/il_iff.cpp
index c7ade04..488596e 100755
--- a/DevIL/src-IL/src/il_iff.cpp
+++ b/DevIL/src-IL/src/il_iff.cpp
@@ -225,7 +225,7 @@ ILboolean iLoadIffInternal(void)
 
 		// Read tiles
 		while ( (tileImage < tiles) || (tileZ < tiles)) {
-			char	 *tileData;
+			char	 *tileData = NULL;
 			ILushort x1, x2, y1, y2, tile_width, tile_height;
 			ILuint remainingDataSize;
 			ILushort	tile_area;
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 8a7b2cd..1d8a8d7 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -363,7 +363,8 @@ ILboolean iLoadVtfInternal(void)
 	// The origin should be in the upper left.
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 	// Create any mipmaps.
-	VtfInitFacesMipmaps(iCurImage, NumFaces, &Head);
+	if (!VtfInitFacesMipmaps(iCurImage, NumFaces, &Head))
+		return IL_FALSE;
 
 	// Create our animation chain
 	BaseImage = Image = iCurImage;  // Top-level image
-- 
2.43.0


From f1a5917ddc3788bd6ab4ee095b1f1c86b540ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 31/81] fix: a failed palette, colour table or row swap
 allocation is reported, not ignored

---
 DevIL/src-IL/src/il_ilbm.cpp     |  7 ++++++-
 DevIL/src-IL/src/il_register.cpp |  7 +++++--
 DevIL/src-IL/src/il_utility.cpp  |  4 +---
 DevIL/src-IL/src/il_xpm.cpp      | 22 +++++++++++++---------
 4 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index 56b1c68..fc6a43a 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -468,8 +468,13 @@ static ILboolean load_ilbm(void)
             scratch_pal[i].b = scratch_pal[i%nbcolors].b;
         }
 
-        if ( !pbm )
+        if ( !pbm ) {
             ilRegisterPal( scratch_pal, 3*nbrcolorsfinal, IL_PAL_RGB24 );
+            if ( iCurImage->Pal.Palette == NULL ) {
+                error=(char*)"out of memory";
+                goto done;
+            }
+        }
 
     }
 
diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index df3361d..c40a25b 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -443,15 +443,18 @@ void ILAPIENTRY ilRegisterPal(void *Pal, ILuint Size, ILenum Type)
 		return;
 	}
 
-	if (!iCurImage->Pal.Palette || !iCurImage->Pal.PalSize || iCurImage->Pal.PalType != IL_PAL_NONE) {
+	if (iCurImage->Pal.Palette) {
 		ifree(iCurImage->Pal.Palette);
 	}
 
 	iCurImage->Pal.PalSize = Size;
 	iCurImage->Pal.PalType = Type;
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(Size);
-	if (iCurImage->Pal.Palette == NULL)
+	if (iCurImage->Pal.Palette == NULL) {
+		iCurImage->Pal.PalSize = 0;
+		iCurImage->Pal.PalType = IL_PAL_NONE;
 		return;
+	}
 
 	if (Pal != NULL) {
 		memcpy(iCurImage->Pal.Palette, Pal, Size);
diff --git a/DevIL/src-IL/src/il_utility.cpp b/DevIL/src-IL/src/il_utility.cpp
index e52480d..0c180df 100644
--- a/DevIL/src-IL/src/il_utility.cpp
+++ b/DevIL/src-IL/src/il_utility.cpp
@@ -148,11 +148,10 @@ ILAPI ILuint ILAPIENTRY ilNextPower2(ILuint n)
 ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 {
 	const ILuint block_size = 4096;
+	ILubyte block[block_size];
 	const ILuint blocks = size/block_size;
 	ILuint i;
 
-	ILubyte *block = (ILubyte*)ialloc(block_size);
-	if(block == NULL) return;
 	for( i = 0; i < blocks; i++ ) {
 		memcpy(block,s1,block_size);
 		memcpy(s1,s2,block_size);
@@ -166,6 +165,5 @@ ILAPI void ILAPIENTRY iMemSwap(ILubyte *s1, ILubyte *s2, const ILuint size)
 		memcpy(s1,s2,i);
 		memcpy(s2,block,i);
 	}
-	ifree(block);
 	return;
 }
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 748d5fd..847a962 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -195,19 +195,21 @@ void XpmDestroyHashTable(XPMHASHENTRY **Table)
 }
 
 
-void XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
+ILboolean XpmInsertEntry(XPMHASHENTRY **Table, const ILubyte* Name, int Len, XpmPixel Colour)
 {
 	XPMHASHENTRY* NewEntry;
 	ILuint Index;
 	Index = XpmHash(Name, Len);
 
 	NewEntry = (XPMHASHENTRY*)ialloc(sizeof(XPMHASHENTRY));
-	if (NewEntry != NULL) {
-		NewEntry->Next = Table[Index];
-		memcpy(NewEntry->ColourName, Name, Len);
-		memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
-		Table[Index] = NewEntry;
-	}
+	if (NewEntry == NULL)
+		return IL_FALSE;
+
+	NewEntry->Next = Table[Index];
+	memcpy(NewEntry->ColourName, Name, Len);
+	memcpy(NewEntry->ColourValue, Colour, sizeof(XpmPixel));
+	Table[Index] = NewEntry;
+	return IL_TRUE;
 }
 
 
@@ -469,7 +471,8 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 #ifndef XPM_DONT_USE_HASHTABLE
 		memset(Colour, 0, sizeof(Colour));
 		Colour[3] = 255;
-		XpmInsertEntry(Table, Name, Len, Colour);
+		if (!XpmInsertEntry(Table, Name, Len, Colour))
+			return IL_FALSE;
 #else
 		memset(Colours[Name[0]], 0, sizeof(Colour));
 		Colours[Name[0]][3] = 255;
@@ -533,7 +536,8 @@ ILboolean XpmGetColour(ILubyte *Buffer, ILint Size, int Len, XpmPixel* Colours)
 
 
 #ifndef XPM_DONT_USE_HASHTABLE
-	XpmInsertEntry(Table, Name, Len, Colour);
+	if (!XpmInsertEntry(Table, Name, Len, Colour))
+		return IL_FALSE;
 #else
 	memcpy(Colours[Name[0]], Colour, sizeof(Colour));
 #endif
-- 
2.43.0


From 059faa718919bf5a0a93ea1f501b3eee34f118f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 32/81] fix: ILU error languages select their own texts; texts
 are available before iluInit

---
 DevIL/src-ILU/src/ilu_error.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_error.cpp b/DevIL/src-ILU/src/ilu_error.cpp
index a954a00..0fcec0a 100644
--- a/DevIL/src-ILU/src/ilu_error.cpp
+++ b/DevIL/src-ILU/src/ilu_error.cpp
@@ -22,19 +22,19 @@
 #include "ilu_error/ilu_err-spanish.h"
 
 
-ILconst_string *iluErrors;
-ILconst_string *iluLibErrors;
-ILconst_string *iluMiscErrors;
+ILconst_string *iluErrors = iluErrorStringsEnglish;
+ILconst_string *iluLibErrors = iluLibErrorStringsEnglish;
+ILconst_string *iluMiscErrors = iluMiscErrorStringsEnglish;
 #define ILU_NUM_LANGUAGES 8
 
 ILconst_string *iluErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluErrorStringsEnglish,
 	iluErrorStringsArabic,
 	iluErrorStringsDutch,
-	iluErrorStringsFrench,
 	iluErrorStringsJapanese,
 	iluErrorStringsSpanish,
 	iluErrorStringsGerman,
+	iluErrorStringsFrench,
 	iluErrorStringsItalian
 };
 
@@ -42,10 +42,10 @@ ILconst_string *iluLibErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluLibErrorStringsEnglish,
 	iluLibErrorStringsArabic,
 	iluLibErrorStringsDutch,
-	iluLibErrorStringsFrench,
 	iluLibErrorStringsJapanese,
 	iluLibErrorStringsSpanish,
 	iluLibErrorStringsGerman,
+	iluLibErrorStringsFrench,
 	iluLibErrorStringsItalian
 };
 
@@ -53,10 +53,10 @@ ILconst_string *iluMiscErrorStrings[ILU_NUM_LANGUAGES] = {
 	iluMiscErrorStringsEnglish,
 	iluMiscErrorStringsArabic,
 	iluMiscErrorStringsDutch,
-	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsJapanese,
 	iluMiscErrorStringsSpanish,
 	iluMiscErrorStringsGerman,
+	iluMiscErrorStringsFrench,
 	iluMiscErrorStringsItalian
 };
 
-- 
2.43.0


From 01669f8247506ba5cffbf1688362a7b5be440c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 33/81] fix: palette files and C headers are read and written
 through the file procedures

Palette loaders read from whatever input was set before instead of the file
they had opened, .col and JASC palettes and C headers bypassed the procedures
set by ilSetRead/ilSetWrite, and saving a JASC palette left the palette of
the image marked as RGB24.
---
 DevIL/src-IL/include/il_pal.h  |   2 +-
 DevIL/src-IL/src/il_header.cpp |  69 +++++++++-----------
 DevIL/src-IL/src/il_pal.cpp    | 116 +++++++++++++++------------------
 3 files changed, 86 insertions(+), 101 deletions(-)

diff --git a/DevIL/src-IL/include/il_pal.h b/DevIL/src-IL/include/il_pal.h
index 8235326..af0de61 100644
--- a/DevIL/src-IL/include/il_pal.h
+++ b/DevIL/src-IL/include/il_pal.h
@@ -45,7 +45,7 @@ typedef struct HALOHEAD
 
 ILboolean	ilLoadJascPal(ILconst_string FileName);
 ILboolean	ilSaveJascPal(ILconst_string FileName);
-char		*iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File);
+char		*iFgetw(ILubyte *Buff, ILint MaxLen);
 ILboolean	ilLoadHaloPal(ILconst_string FileName);
 ILboolean	ilLoadColPal(ILconst_string FileName);
 ILboolean	ilLoadActPal(ILconst_string FileName);
diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 4115afe..715e391 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -20,7 +20,7 @@
 //! Generates a C-style header file for the current image.
 ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 {
-	FILE		*HeadFile;
+	ILHANDLE	HeadFile;
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
 	const char	*Name;
@@ -60,73 +60,66 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		TempImage = iCurImage;
 	}
 
-#ifndef _UNICODE
-	HeadFile = fopen(FileName, "wb");
-#else
-	#ifdef _WIN32
-		HeadFile = _wfopen(FileName, L"rb");
-	#else
-		HeadFile = fopen((char*)FileName, "rb");
-	#endif
-
-#endif//_UNICODE
-
+	HeadFile = iopenw(FileName);
 	if (HeadFile == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
         return IL_FALSE;
 	}
-
-	fprintf(HeadFile, "//#include <il/il.h>\n");
-	fprintf(HeadFile, "// C Image Header:\n\n\n");
-	fprintf(HeadFile, "// IMAGE_BPP is in bytes per pixel, *not* bits\n");
-    fprintf(HeadFile, "#define IMAGE_BPP %d\n",iCurImage->Bpp);
-	fprintf(HeadFile, "#define IMAGE_WIDTH   %d\n", iCurImage->Width);
-	fprintf(HeadFile, "#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
-	fprintf(HeadFile, "#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
-	fprintf(HeadFile, "#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
-	fprintf(HeadFile, "#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
-    fprintf(HeadFile, "ILubyte %s[] = {\n", Name);
+	iSetOutputFile(HeadFile);
+
+	ilprintf("//#include <il/il.h>\n");
+	ilprintf("// C Image Header:\n\n\n");
+	ilprintf("// IMAGE_BPP is in bytes per pixel, *not* bits\n");
+    ilprintf("#define IMAGE_BPP %d\n",iCurImage->Bpp);
+	ilprintf("#define IMAGE_WIDTH   %d\n", iCurImage->Width);
+	ilprintf("#define IMAGE_HEIGHT  %d\n", iCurImage->Height);	
+	ilprintf("#define IMAGE_DEPTH   %d\n\n\n", iCurImage->Depth);
+	ilprintf("#define IMAGE_TYPE    0x%X\n", iCurImage->Type);
+	ilprintf("#define IMAGE_FORMAT  0x%X\n\n\n", iCurImage->Format);
+    ilprintf("ILubyte %s[] = {\n", Name);
         
 
 	for (; i < TempImage->SizeOfData; i += MAX_LINE_WIDTH) {
-		fprintf(HeadFile, "\t");
+		ilprintf("\t");
 		for (j = 0; j < MAX_LINE_WIDTH; j++) {
 			if (i + j >= TempImage->SizeOfData - 1) {
-				fprintf(HeadFile, "%4d", TempImage->Data[i+j]);
+				ilprintf("%4d", TempImage->Data[i+j]);
 				break;
 			}
 			else
-				fprintf(HeadFile, "%4d,", TempImage->Data[i+j]);
+				ilprintf("%4d,", TempImage->Data[i+j]);
 		}
-		fprintf(HeadFile, "\n");
+		ilprintf("\n");
 	}
 	if (TempImage != iCurImage)
 		ilCloseImage(TempImage);
 
-	fprintf(HeadFile, "};\n");
+	ilprintf("};\n");
 
 
 	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize && iCurImage->Pal.PalType != IL_PAL_NONE) {
-		fprintf(HeadFile, "\n\n");
-		fprintf(HeadFile, "#define IMAGE_PALSIZE %u\n\n", iCurImage->Pal.PalSize);
-		fprintf(HeadFile, "#define IMAGE_PALTYPE 0x%X\n\n", iCurImage->Pal.PalType);
-        fprintf(HeadFile, "ILubyte %sPal[] = {\n", Name);
+		ilprintf("\n\n");
+		ilprintf("#define IMAGE_PALSIZE %u\n\n", iCurImage->Pal.PalSize);
+		ilprintf("#define IMAGE_PALTYPE 0x%X\n\n", iCurImage->Pal.PalType);
+        ilprintf("ILubyte %sPal[] = {\n", Name);
 		for (i = 0; i < iCurImage->Pal.PalSize; i += MAX_LINE_WIDTH) {
-			fprintf(HeadFile, "\t");
+			ilprintf("\t");
 			for (j = 0; j < MAX_LINE_WIDTH; j++) {
 				if (i + j >= iCurImage->Pal.PalSize - 1) {
-					fprintf(HeadFile, " %4d", iCurImage->Pal.Palette[i+j]);
+					ilprintf(" %4d", iCurImage->Pal.Palette[i+j]);
 					break;
 				}
 				else
-					fprintf(HeadFile, " %4d,", iCurImage->Pal.Palette[i+j]);
+					ilprintf(" %4d,", iCurImage->Pal.Palette[i+j]);
 			}
-			fprintf(HeadFile, "\n");
+			ilprintf("\n");
 		}
 
-		fprintf(HeadFile, "};\n");
+		ilprintf("};\n");
 	}
-	fclose(HeadFile);
+	iclosew(HeadFile);
 	return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index a80ffb7..1333fc7 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -21,7 +21,7 @@
 //! Loads a palette from FileName into the current image's palette.
 ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 {
-	FILE		*f;
+	ILHANDLE	f;
 	ILboolean	IsPsp;
 	char		Head[8];
 
@@ -40,23 +40,19 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 		return ilLoadPltPal(FileName);
 	}
 
-#ifndef _UNICODE
-	f = fopen(FileName, "rt");
-#else
-	f = _wfopen(FileName, L"rt");
-#endif//_UNICODE
+	f = iopenr(FileName);
 	if (f == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	fread(Head, 1, 8, f);
-	if (!strncmp(Head, "JASC-PAL", 8))
+	iSetInputFile(f);
+	if (iread(Head, 1, 8) == 8 && !strncmp(Head, "JASC-PAL", 8))
 		IsPsp = IL_TRUE;
 	else
 		IsPsp = IL_FALSE;
 
-	fclose(f);
+	icloser(f);
 
 	if (IsPsp)
 		return ilLoadJascPal(FileName);
@@ -67,7 +63,7 @@ ILboolean ILAPIENTRY ilLoadPal(ILconst_string FileName)
 //! Loads a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilLoadJascPal(ILconst_string FileName)
 {
-	FILE *PalFile;
+	ILHANDLE PalFile;
 	ILuint NumColours, i, c;
 	ILubyte Buff[BUFFLEN];
 	ILboolean Error = IL_FALSE;
@@ -83,35 +79,32 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "rt");
-#else
-	PalFile = _wfopen(FileName, L"rt");
-#endif//_UNICODE
+	PalFile = iopenr(FileName);
 	if (PalFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetInputFile(PalFile);
 
 	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize > 0 && iCurImage->Pal.PalType != IL_PAL_NONE) {
 		ifree(iCurImage->Pal.Palette);
 		iCurImage->Pal.Palette = NULL;
 	}
 
-	iFgetw(Buff, BUFFLEN, PalFile);
+	iFgetw(Buff, BUFFLEN);
 	if (stricmp((const char*)Buff, "JASC-PAL")) {
 		Error = IL_TRUE;
 	}
-	iFgetw(Buff, BUFFLEN, PalFile);
+	iFgetw(Buff, BUFFLEN);
 	if (stricmp((const char*)Buff, "0100")) {
 		Error = IL_TRUE;
 	}
 
-	iFgetw(Buff, BUFFLEN, PalFile);
+	iFgetw(Buff, BUFFLEN);
 	NumColours = atoi((const char*)Buff);
 	if (NumColours == 0 || Error) {
 		ilSetError(IL_INVALID_FILE_HEADER);
-		fclose(PalFile);
+		icloser(PalFile);
 		return IL_FALSE;
 	}
 	
@@ -119,18 +112,18 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 	Pal->PalType = IL_PAL_RGB24;
 	Pal->Palette = (ILubyte*)ialloc(NumColours * PALBPP);
 	if (Pal->Palette == NULL) {
-		fclose(PalFile);
+		icloser(PalFile);
 		return IL_FALSE;
 	}
 
 	for (i = 0; i < NumColours; i++) {
 		for (c = 0; c < PALBPP; c++) {
-			iFgetw(Buff, BUFFLEN, PalFile);
+			iFgetw(Buff, BUFFLEN);
 			Pal->Palette[i * PALBPP + c] = atoi((const char*)Buff);
 		}
 	}
 
-	fclose(PalFile);
+	icloser(PalFile);
 
 	return IL_TRUE;
 }
@@ -138,35 +131,37 @@ ILboolean ilLoadJascPal(ILconst_string FileName)
 
 // File Get Word
 //	MaxLen must be greater than 1, because the trailing NULL is always stored.
-char *iFgetw(ILubyte *Buff, ILint MaxLen, FILE *File)
+char *iFgetw(ILubyte *Buff, ILint MaxLen)
 {
 	ILint Temp;
 	ILint i;
 
-	if (Buff == NULL || File == NULL || MaxLen < 2) {
+	if (Buff == NULL || MaxLen < 2) {
 		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
 	for (i = 0; i < MaxLen - 1; i++) {
-		Temp = fgetc(File);
-		if (Temp == '\n' || Temp == '\0' || Temp == IL_EOF || feof(File)) {
+		Temp = igetc();
+		if (Temp == '\n' || Temp == '\0' || Temp == IL_EOF) {
 			break;			
 		}
 
 		if (Temp == ' ') {
 			while (Temp == ' ') {  // Just to get rid of any extra spaces
-				Temp = fgetc(File);
+				Temp = igetc();
 			}
-			fseek(File, -1, IL_SEEK_CUR);  // Go back one
+			if (Temp != IL_EOF)
+				iseek(-1, IL_SEEK_CUR);  // Go back one
 			break;
 		}
 
 		if (!isprint(Temp)) {  // Skips any non-printing characters
-			while (!isprint(Temp)) {
-				Temp = fgetc(File);
+			while (Temp != IL_EOF && !isprint(Temp)) {
+				Temp = igetc();
 			}
-			fseek(File, -1, IL_SEEK_CUR);
+			if (Temp != IL_EOF)
+				iseek(-1, IL_SEEK_CUR);
 			break;
 		}
 
@@ -213,9 +208,9 @@ ILboolean ILAPIENTRY ilSavePal(ILconst_string FileName)
 //! Saves a Paint Shop Pro formatted palette (.pal) file.
 ILboolean ilSaveJascPal(ILconst_string FileName)
 {
-	FILE	*PalFile;
+	ILHANDLE	PalFile;
 	ILuint	i, PalBpp, NumCols = ilGetInteger(IL_PALETTE_NUM_COLS);
-	ILubyte	*CurPal;
+	ILpal	*Pal;
 
 	if (iCurImage == NULL || NumCols == 0 || NumCols > 256) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -243,49 +238,38 @@ ILboolean ilSaveJascPal(ILconst_string FileName)
 		}
 	}
 
-	// Create a copy of the current palette and convert it to RGB24 format.
-	CurPal = iCurImage->Pal.Palette;
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
-	if (!iCurImage->Pal.Palette) {
-		iCurImage->Pal.Palette = CurPal;
+	// Create a copy of the current palette in RGB24 format.
+	Pal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
+	if (Pal == NULL)
 		return IL_FALSE;
-	}
 
-	memcpy(iCurImage->Pal.Palette, CurPal, iCurImage->Pal.PalSize);
-	if (!ilConvertPal(IL_PAL_RGB24)) {
-		ifree(iCurImage->Pal.Palette);
-		iCurImage->Pal.Palette = CurPal;
-		return IL_FALSE;
-	}
-
-#ifndef _UNICODE
-	PalFile = fopen(FileName, "wt");
-#else
-	PalFile = _wfopen(FileName, L"wt");
-#endif//_UNICODE
+	PalFile = iopenw(FileName);
 	if (!PalFile) {
+		ifree(Pal->Palette);
+		ifree(Pal);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
+	iSetOutputFile(PalFile);
 
 	// Header needed on all .pal files
-	fputs("JASC-PAL\n0100\n256\n", PalFile);
+	ilprintf("JASC-PAL\n0100\n256\n");
 
-	PalBpp = ilGetBppPal(iCurImage->Pal.PalType);
-	for (i = 0; i < iCurImage->Pal.PalSize; i += PalBpp) {
-		fprintf(PalFile, "%d %d %d\n",
-			iCurImage->Pal.Palette[i], iCurImage->Pal.Palette[i+1], iCurImage->Pal.Palette[i+2]);
+	PalBpp = ilGetBppPal(Pal->PalType);
+	for (i = 0; i < Pal->PalSize; i += PalBpp) {
+		ilprintf("%d %d %d\n",
+			Pal->Palette[i], Pal->Palette[i+1], Pal->Palette[i+2]);
 	}
 
 	NumCols = 256 - NumCols;
 	for (i = 0; i < NumCols; i++) {
-		fprintf(PalFile, "0 0 0\n");
+		ilprintf("0 0 0\n");
 	}
 
-	ifree(iCurImage->Pal.Palette);
-	iCurImage->Pal.Palette = CurPal;
+	ifree(Pal->Palette);
+	ifree(Pal);
 
-	fclose(PalFile);
+	iclosew(PalFile);
 
 	return IL_TRUE;
 }
@@ -315,6 +299,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	iSetInputFile(HaloFile);
 	if (iread(&HaloHead, sizeof(HALOHEAD), 1) != 1) {
 		icloser(HaloFile);
 		return IL_FALSE;
@@ -348,6 +333,7 @@ ILboolean ilLoadHaloPal(ILconst_string FileName)
 	iCurImage->Pal.Palette = (ILubyte*)ialloc(iCurImage->Pal.PalSize);
 	if (iCurImage->Pal.Palette == NULL) {
 		icloser(HaloFile);
+		ifree(TempPal);
 		return IL_FALSE;
 	}
 
@@ -394,12 +380,16 @@ ILboolean ilLoadColPal(ILconst_string FileName)
 		iCurImage->Pal.Palette = NULL;
 	}
 
+	iSetInputFile(ColFile);
 	iseek(0, IL_SEEK_END);
-	RealFileSize = ftell((FILE*)ColFile);
+	RealFileSize = itell();
 	iseek(0, IL_SEEK_SET);
 
 	if (RealFileSize > 768) {  // has a header
-		fread(&FileSize, 4, 1, (FILE*)ColFile);
+		if (iread(&FileSize, 4, 1) != 1) {
+			icloser(ColFile);
+			return IL_FALSE;
+		}
 		if ((FileSize - 8) % 3 != 0) {  // check to make sure an even multiple of 3!
 			icloser(ColFile);
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
@@ -481,6 +471,7 @@ ILboolean ilLoadActPal(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
+	iSetInputFile(ActFile);
 	if (iread(iCurImage->Pal.Palette, 1, 768) != 768) {
 		icloser(ActFile);
 		return IL_FALSE;
@@ -518,6 +509,7 @@ ILboolean ilLoadPltPal(ILconst_string FileName)
 		iCurImage->Pal.Palette = NULL;
 	}
 
+	iSetInputFile(PltFile);
 	iCurImage->Pal.PalSize = GetLittleUInt();
 	if (iCurImage->Pal.PalSize == 0) {
 		icloser(PltFile);
-- 
2.43.0


From 844bd1a784a371f3b250fde7d8fe257150fea8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 34/81] fix: library memory is not mixed with malloc, free and
 delete

il_hdr, il_ilbm, ilu_region and il_utx used the C library allocator, or freed
library memory with it; ilprintf could write past its buffer.
---
 DevIL/src-IL/include/il_utx.h    | 2 +-
 DevIL/src-IL/src/il_files.cpp    | 2 +-
 DevIL/src-IL/src/il_hdr.cpp      | 2 +-
 DevIL/src-IL/src/il_ilbm.cpp     | 5 ++---
 DevIL/src-IL/src/il_utx.cpp      | 4 +++-
 DevIL/src-ILU/src/ilu_region.cpp | 2 +-
 6 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/include/il_utx.h b/DevIL/src-IL/include/il_utx.h
index 07223b2..d0b82d4 100644
--- a/DevIL/src-IL/include/il_utx.h
+++ b/DevIL/src-IL/include/il_utx.h
@@ -84,7 +84,7 @@ class UTXPALETTE
 {
 public:
 	UTXPALETTE() { Pal = NULL; }
-	~UTXPALETTE() { delete [] Pal; }
+	~UTXPALETTE() { ifree(Pal); }
 
 	ILubyte	*Pal;
 	ILuint	Count;
diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 33c9974..839a695 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -416,7 +416,7 @@ ILuint ILAPIENTRY ilprintf(const char *Line, ...)
 	ILuint	i;
 
 	va_start(VaLine, Line);
-	vsprintf(Buffer, Line, VaLine);
+	vsnprintf(Buffer, sizeof(Buffer), Line, VaLine);
 	va_end(VaLine);
 
 	i = ilCharStrLen(Buffer);
diff --git a/DevIL/src-IL/src/il_hdr.cpp b/DevIL/src-IL/src/il_hdr.cpp
index eb4c76e..60c08e4 100644
--- a/DevIL/src-IL/src/il_hdr.cpp
+++ b/DevIL/src-IL/src/il_hdr.cpp
@@ -625,7 +625,7 @@ ILboolean iSaveHdrInternal()
 		rgbe[2] = TempImage->Width >> 8;
 		rgbe[3] = TempImage->Width & 0xFF;
 		if (iwrite(rgbe, sizeof(rgbe), 1) < 1) {
-			free(buffer);
+			ifree(buffer);
 			if (iCurImage != TempImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
diff --git a/DevIL/src-IL/src/il_ilbm.cpp b/DevIL/src-IL/src/il_ilbm.cpp
index fc6a43a..eb48d06 100644
--- a/DevIL/src-IL/src/il_ilbm.cpp
+++ b/DevIL/src-IL/src/il_ilbm.cpp
@@ -399,8 +399,7 @@ static ILboolean load_ilbm(void)
     /* Allocate memory for a temporary buffer ( used for
            decompression/deinterleaving ) */
 
-	//@TODO: Why do we have a malloc here instead of ialloc?
-    if ( ( MiniBuf = (ILubyte*)malloc( bytesperline * nbplanes ) ) == NULL )
+    if ( ( MiniBuf = (ILubyte*)ialloc( bytesperline * nbplanes ) ) == NULL )
     {
         ilSetError( IL_OUT_OF_MEMORY );
         error=(char*)"not enough memory for temporary buffer";
@@ -650,7 +649,7 @@ static ILboolean load_ilbm(void)
 
 done:
 
-    if ( MiniBuf ) free( MiniBuf );
+    if ( MiniBuf ) ifree( MiniBuf );
 
     if ( error )
     {
diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index f993dfb..6d10257 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -377,7 +377,9 @@ ILboolean iLoadUtxInternal(void)
 			iseek(ExportTable[NumPal].SerialOffset, IL_SEEK_SET);
 			Name = igetc();  // Skip the 2.  @TODO: Can there be more in front of the palettes?
 			Palettes[NumPal].Count = UtxReadCompactInteger();
-			Palettes[NumPal].Pal = new ILubyte[Palettes[NumPal].Count * 4];
+			Palettes[NumPal].Pal = (ILubyte*)ialloc(Palettes[NumPal].Count * 4);
+			if (Palettes[NumPal].Pal == NULL)
+				return IL_FALSE;
 			if (iread(Palettes[NumPal].Pal, Palettes[NumPal].Count * 4, 1) != 1)
 				return IL_FALSE;
 			NumPal++;
diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 1c4d1fb..6a2eada 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -191,7 +191,7 @@ void DeleteAfter(Edge *q)
 {
 	Edge *p = q->next;
 	q->next = p->next;
-	free(p);
+	ifree(p);
 }
 
 
-- 
2.43.0


From f91c1e6fbcb9cde4ad89004ec3371df9097f5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 35/81] fix: ilSaveData opens its file for writing;
 iluSwapColours and iluConvolution read the current image

---
 DevIL/src-IL/src/il_rawdata.cpp  | 17 ++++++++++++++---
 DevIL/src-ILU/src/ilu_filter.cpp |  4 ++--
 DevIL/src-ILU/src/ilu_manip.cpp  |  4 ++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_rawdata.cpp b/DevIL/src-IL/src/il_rawdata.cpp
index 0ba66b6..654a958 100644
--- a/DevIL/src-IL/src/il_rawdata.cpp
+++ b/DevIL/src-IL/src/il_rawdata.cpp
@@ -104,14 +104,25 @@ ILboolean ILAPIENTRY ilSaveData(ILconst_string FileName)
 		return IL_FALSE;
 	}
 
-	DataFile = iopenr(FileName);
+	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
+		if (iFileExists(FileName)) {
+			ilSetError(IL_FILE_ALREADY_EXISTS);
+			return IL_FALSE;
+		}
+	}
+
+	DataFile = iopenw(FileName);
 	if (DataFile == NULL) {
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
 
-	iwrite(iCurImage->Data, 1, iCurImage->SizeOfData);
-	icloser(DataFile);
+	iSetOutputFile(DataFile);
+	if (iwrite(iCurImage->Data, 1, iCurImage->SizeOfData) != (ILint)iCurImage->SizeOfData) {
+		iclosew(DataFile);
+		return IL_FALSE;
+	}
+	iclosew(DataFile);
 
 	return IL_TRUE;
 }
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index fb3f834..dd40336 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -1305,8 +1305,8 @@ ILAPI ILboolean ILAPIENTRY iluConvolution(ILint *matrix, ILint scale, ILint bias
 	ILubyte		*Data;
 	ILboolean	Palette = IL_FALSE, Converted = IL_FALSE;
 	ILenum		Type = 0;
-	ILimage		*iluCurImage = ilGetCurImage();
-	
+
+	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
 		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 1f080fb..0ed2cfa 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -494,8 +494,8 @@ ILboolean ILAPIENTRY iluSwapColours() {
 		return IL_FALSE;
 	}
 
-	if (iluCurImage->Bpp == 1) {
-		if (ilGetBppPal(iluCurImage->Pal.PalType) == 0 || iluCurImage->Format != IL_COLOUR_INDEX) {
+	if (img->Bpp == 1) {
+		if (ilGetBppPal(img->Pal.PalType) == 0 || img->Format != IL_COLOUR_INDEX) {
 			ilSetError(ILU_ILLEGAL_OPERATION);  // Can be luminance.
 			return IL_FALSE;
 		}
-- 
2.43.0


From 893f0f0541992d5482c434e47549ccca2619bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 36/81] fix: failed palette conversions keep the bound image
 and free the palette once

---
 DevIL/src-IL/src/il_convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 2962a1a..962b34a 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -44,6 +44,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	if (DestFormat == IL_LUMINANCE || DestFormat == IL_LUMINANCE_ALPHA) {
 		if (NewImage->Pal.Palette)
 			ifree(NewImage->Pal.Palette);
+		NewImage->Pal.Palette = NULL;
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
 
@@ -128,6 +129,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	else if (DestFormat == IL_ALPHA) {
 		if (NewImage->Pal.Palette)
 			ifree(NewImage->Pal.Palette);
+		NewImage->Pal.Palette = NULL;
 
 		switch (iCurImage->Pal.PalType)
 		{
@@ -228,6 +230,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			return NewImage;
 
 		default:
+			ilSetCurImage(CurImage);
 			ilCloseImage(NewImage);
 			ilSetError(IL_INVALID_CONVERSION);
 			return NULL;
@@ -259,10 +262,10 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 
 alloc_error:
 	ifree(Temp);
+	if (CurImage)
+		ilSetCurImage(CurImage);
 	if (NewImage)
 		ilCloseImage(NewImage);
-	if (CurImage != iCurImage)
-		ilSetCurImage(CurImage);
 	return NULL;
 }
 
-- 
2.43.0


From 81790e4f124db02036202f8cb3fcc02b04352a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 37/81] fix: loading, saving, blitting and cloning do not leave
 another image selected

---
 DevIL/src-IL/src/il_convert.cpp  | 26 +++++++++++++++-----------
 DevIL/src-IL/src/il_dcx.cpp      |  6 ++++--
 DevIL/src-IL/src/il_dds-save.cpp | 11 +++++++++--
 DevIL/src-IL/src/il_dds.cpp      | 15 ++++++++++-----
 DevIL/src-IL/src/il_devil.cpp    | 22 ++++++++++++++++++----
 DevIL/src-IL/src/il_mdl.cpp      |  7 ++++++-
 DevIL/src-IL/src/il_vtf.cpp      | 24 ++++++++++++++----------
 7 files changed, 76 insertions(+), 35 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 962b34a..221f3c3 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -1092,39 +1092,39 @@ ILboolean ilFixImage()
 	for (i = 0; i <= NumImages; i++) {
 		ilBindImage(ilGetCurName());  // Set to parent image first.
 		if (!ilActiveImage(i))
-			return IL_FALSE;
+			goto fix_error;
 
 		NumFaces = ilGetInteger(IL_NUM_FACES);
 		for (f = 0; f <= NumFaces; f++) {
 			ilBindImage(ilGetCurName());  // Set to parent image first.
 			if (!ilActiveImage(i))
-				return IL_FALSE;
+				goto fix_error;
 			if (!ilActiveFace(f))
-				return IL_FALSE;
+				goto fix_error;
 
 			NumLayers = ilGetInteger(IL_NUM_LAYERS);
 			for (k = 0; k <= NumLayers; k++) {
 				ilBindImage(ilGetCurName());  // Set to parent image first.
 				if (!ilActiveImage(i))
-					return IL_FALSE;
+					goto fix_error;
 				if (!ilActiveFace(f))
-					return IL_FALSE;
+					goto fix_error;
 				if (!ilActiveLayer(k))
-					return IL_FALSE;
+					goto fix_error;
 
 				NumMipmaps = ilGetInteger(IL_NUM_MIPMAPS);
 				for (j = 0; j <= NumMipmaps; j++) {
 					ilBindImage(ilGetCurName());	// Set to parent image first.
 					if (!ilActiveImage(i))
-						return IL_FALSE;
+						goto fix_error;
 					if (!ilActiveFace(f))
-						return IL_FALSE;
+						goto fix_error;
 					if (!ilActiveLayer(k))
-						return IL_FALSE;
+						goto fix_error;
 					if (!ilActiveMipmap(j))
-						return IL_FALSE;
+						goto fix_error;
 					if (!ilFixCur())
-						return IL_FALSE;
+						goto fix_error;
 				}
 			}
 		}
@@ -1132,4 +1132,8 @@ ILboolean ilFixImage()
 	ilBindImage(ilGetCurName());
 
 	return IL_TRUE;
+
+fix_error:
+	ilBindImage(ilGetCurName());  // Do not leave a subimage selected.
+	return IL_FALSE;
 }
diff --git a/DevIL/src-IL/src/il_dcx.cpp b/DevIL/src-IL/src/il_dcx.cpp
index fe608a8..313eaf0 100644
--- a/DevIL/src-IL/src/il_dcx.cpp
+++ b/DevIL/src-IL/src/il_dcx.cpp
@@ -179,6 +179,7 @@ ILboolean iLoadDcxInternal()
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
+	Base = iCurImage;
 
 	if (!iIsValidDcx())
 		return IL_FALSE;
@@ -199,15 +200,16 @@ ILboolean iLoadDcxInternal()
 		}*/
 
 		Image = iUncompressDcx(&Header);
-		if (Image == NULL)
+		if (Image == NULL) {
+			iCurImage = Base;
 			return IL_FALSE;
+		}
 
 		if (i == 0) {
 			if (!ilTexImage(Image->Width, Image->Height, 1, Image->Bpp, Image->Format, Image->Type, Image->Data)) {
 				ilCloseImage(Image);
 				return IL_FALSE;
 			}
-			Base = iCurImage;
 			Base->Origin = IL_ORIGIN_UPPER_LEFT;
 			ilCloseImage(Image);
 		}
diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index dcfa8cb..0b36e8a 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -140,6 +140,7 @@ ILboolean iSaveDdsInternal()
 	ILubyte	*CurData = NULL;
 	ILint	CubeTable[6] = { 0 };
 	ILuint	CubeFlags;
+	ILboolean	Saved;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -170,21 +171,27 @@ ILboolean iSaveDdsInternal()
 				iCurImage->Data = iGetFlipped(iCurImage);
 				if (iCurImage->Data == NULL) {
 					iCurImage->Data = CurData;
+					ilBindImage(image);
 					return IL_FALSE;
 				}
 			}
 
-			if (!Compress(iCurImage, DXTCFormat))
-				return IL_FALSE;
+			Saved = (Compress(iCurImage, DXTCFormat) != 0);
 
 			if (iCurImage->Origin != IL_ORIGIN_UPPER_LEFT) {
 				ifree(iCurImage->Data);
 				iCurImage->Data = CurData;
 			}
+
+			if (!Saved) {
+				ilBindImage(image);
+				return IL_FALSE;
+			}
 		}
 
 	}
 
+	ilBindImage(image);
 	return IL_TRUE;
 }
 
diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 8bead9b..1bda22e 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -338,7 +338,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 			if (i != 0) {
 				Image->Faces = ilNewImage(Width, Height, Depth, Channels, Bpc);
 				if (Image->Faces == NULL)
-					return IL_FALSE;
+					goto face_error;
 
 				Image = Image->Faces;
 
@@ -360,14 +360,14 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 			}
 
 			if (!ReadData(CompFormat, IsDXT10))
-				return IL_FALSE;
+				goto face_error;
 
 			if (!AllocImage(CompFormat, IsDXT10)) {
 				if (CompData) {
 					ifree(CompData);
 					CompData = NULL;
 				}
-				return IL_FALSE;
+				goto face_error;
 			}
 
 			Image->CubeFlags = CubemapDirections[i];
@@ -377,7 +377,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					ifree(CompData);
 					CompData = NULL;
 				}
-				return IL_FALSE;
+				goto face_error;
 			}
 
 			if (!ReadMipmaps(CompFormat, IsDXT10)) {
@@ -385,7 +385,7 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 					ifree(CompData);
 					CompData = NULL;
 				}
-				return IL_FALSE;
+				goto face_error;
 			}
 		}
 	}
@@ -397,6 +397,10 @@ ILboolean iLoadDdsCubemapInternal(ILuint CompFormat, ILboolean IsDXT10)
 
 	ilBindImage(ilGetCurName());  // Set to parent image first.
 	return ilFixImage();
+
+face_error:
+	ilBindImage(ilGetCurName());  // Do not leave a subimage selected.
+	return IL_FALSE;
 }
 
 
@@ -2347,6 +2351,7 @@ ILAPI ILboolean ILAPIENTRY ilImageToDxtcData(ILenum Format)
 				ret = IL_FALSE;
 		}
 	}
+	ilBindImage(ImgID);
 
 	return ret;
 }
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 6bf9dec..de285e9 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -727,8 +727,10 @@ ILboolean ILAPIENTRY ilOverlayImage(ILuint Source, ILint XCoord, ILint YCoord, I
 
 	Dest = ilGetCurName();
 	ilBindImage(Source);
-	if (iCurImage == NULL)  // ilBindImage failed and has set the error.
+	if (iCurImage == NULL) {  // ilBindImage failed and has set the error.
+		ilBindImage(Dest);
 		return IL_FALSE;
+	}
 	Width = iCurImage->Width;  Height = iCurImage->Height;  Depth = iCurImage->Depth;
 	ilBindImage(Dest);
 
@@ -767,6 +769,9 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	
 	// Check if the source image really exists
 	if (iCurImage == NULL) {
+		ilBindImage(DestName);
+		if (DestFlipped)
+			ilFlipImage();
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
@@ -794,8 +799,14 @@ ILboolean ILAPIENTRY ilBlit(ILuint Source, ILint DestX,  ILint DestY,   ILint De
 	
 	// convert source image to match the destination image type and format
 	Converted = (ILubyte*)ilConvertBuffer(Src->SizeOfData, Src->Format, Dest->Format, Src->Type, Dest->Type, NULL, SrcTemp);
-	if (Converted == NULL)
+	if (Converted == NULL) {
+		if (SrcTemp != iCurImage->Data)
+			ifree(SrcTemp);
+		ilBindImage(DestName);
+		if (DestFlipped)
+			ilFlipImage();
 		return IL_FALSE;
+	}
 	
 	ConvBps 	  = Dest->Bpp * Src->Width;
 	ConvSizePlane = ConvBps   * Src->Height;
@@ -1100,7 +1111,7 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 
 ILuint ILAPIENTRY ilCloneCurImage()
 {
-	ILuint Id;
+	ILuint Id, Name;
 	ILimage *CurImage;
 	
 	if (iCurImage == NULL) {
@@ -1113,15 +1124,18 @@ ILuint ILAPIENTRY ilCloneCurImage()
 		return 0;
 	
 	CurImage = iCurImage;
+	Name = ilGetCurName();
 	
 	ilBindImage(Id);
 	if (!ilTexImage(CurImage->Width, CurImage->Height, CurImage->Depth, CurImage->Bpp, CurImage->Format, CurImage->Type, CurImage->Data)
 		|| !ilCopyImageAttr(iCurImage, CurImage)) {
-		iCurImage = CurImage;
 		ilDeleteImages(1, &Id);
+		ilBindImage(Name);
+		iCurImage = CurImage;
 		return 0;
 	}
 	
+	ilBindImage(Name);
 	iCurImage = CurImage;
 	
 	return Id;
diff --git a/DevIL/src-IL/src/il_mdl.cpp b/DevIL/src-IL/src/il_mdl.cpp
index 316a5e5..41462b6 100644
--- a/DevIL/src-IL/src/il_mdl.cpp
+++ b/DevIL/src-IL/src/il_mdl.cpp
@@ -161,8 +161,11 @@ ILboolean iLoadMdlInternal()
 	iseek(TexOff, IL_SEEK_SET);
 
 	for (ImageNum = 0; ImageNum < NumTex; ImageNum++) {
-		if (iread(TexHead.Name, 1, 64) != 64)
+		if (iread(TexHead.Name, 1, 64) != 64) {
+			if (BaseCreated)
+				iCurImage = BaseImage;
 			return IL_FALSE;
+		}
 		TexHead.Flags = GetLittleUInt();
 		TexHead.Width = GetLittleUInt();
 		TexHead.Height = GetLittleUInt();
@@ -170,6 +173,8 @@ ILboolean iLoadMdlInternal()
 		Position = itell();
 
 		if (TexHead.Offset == 0) {
+			if (BaseCreated)
+				iCurImage = BaseImage;
 			ilSetError(IL_ILLEGAL_FILE_VALUE);
 			return IL_FALSE;
 		}
diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 1d8a8d7..1386951 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -403,7 +403,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth / 2, 8);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 6:1 compression ratio (or 8:1 for DXT1 with alpha)
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						iread(CompData, 1, SizeOfData);
 						// Keep a copy of the DXTC data if the user wants it.
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
@@ -421,7 +421,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						iread(CompData, 1, SizeOfData);
 						// Keep a copy of the DXTC data if the user wants it.
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
@@ -439,7 +439,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = IL_MAX(Image->Width * Image->Height * Image->Depth, 16);
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Gives a 4:1 compression ratio
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						iread(CompData, 1, SizeOfData);
 						// Keep a copy of the DXTC data if the user wants it.
 						if (ilGetInteger(IL_KEEP_DXTC_DATA) == IL_TRUE) {
@@ -481,7 +481,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 3;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 3 * 4);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData / 3 * 4) != SizeOfData / 3 * 4) {
 							bVtf = IL_FALSE;
 							break;
@@ -500,7 +500,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * Image->Bpp * 2;
 						CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -538,7 +538,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -559,7 +559,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -579,7 +579,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 2;
 						Data16Bit = CompData = (ILubyte*)ialloc(SizeOfData);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData) != SizeOfData) {
 							bVtf = IL_FALSE;
 							break;
@@ -597,7 +597,7 @@ ILboolean iLoadVtfInternal(void)
 						SizeOfData = Image->Width * Image->Height * Image->Depth * 4;
 						Temp = CompData = (ILubyte*)ialloc(SizeOfData / 2);  // Not compressed data
 						if (CompData == NULL)
-							return IL_FALSE;
+							goto vtf_error;
 						if (iread(CompData, 1, SizeOfData / 2) != SizeOfData / 2) {
 							bVtf = IL_FALSE;
 							break;
@@ -616,13 +616,17 @@ ILboolean iLoadVtfInternal(void)
 				ifree(CompData);
 				CompData = NULL;
 				if (bVtf == IL_FALSE)  //@TODO: Do we need to do any cleanup here?
-					return IL_FALSE;
+					goto vtf_error;
 			}
 		}
 	}
 
 	ilBindImage(CurName);  // Set to parent image first.
 	return ilFixImage();
+
+vtf_error:
+	ilBindImage(CurName);  // Do not leave a subimage selected.
+	return IL_FALSE;
 }
 
 
-- 
2.43.0


From f7ae6828ab9b777fe6d40d35c801e9669008ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 38/81] fix: OS/2 BMP, PXR, WBMP and XPM loads honour the
 requested origin, type and format

---
 DevIL/src-IL/src/il_bmp.cpp  | 4 +++-
 DevIL/src-IL/src/il_pxr.cpp  | 2 +-
 DevIL/src-IL/src/il_wbmp.cpp | 2 +-
 DevIL/src-IL/src/il_xpm.cpp  | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 8e0b598..8cff8db 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -231,7 +231,9 @@ ILboolean iLoadBitmapInternal()
 			return IL_FALSE;
 		}
 		else {
-			return iGetOS2Bmp(&Os2Head);
+			if (!iGetOS2Bmp(&Os2Head))
+				return IL_FALSE;
+			return ilFixImage();
 		}
 	}
 
diff --git a/DevIL/src-IL/src/il_pxr.cpp b/DevIL/src-IL/src/il_pxr.cpp
index e451b09..b8ee801 100644
--- a/DevIL/src-IL/src/il_pxr.cpp
+++ b/DevIL/src-IL/src/il_pxr.cpp
@@ -115,7 +115,7 @@ ILboolean iLoadPxrInternal()
 	iread(iCurImage->Data, 1, iCurImage->SizeOfData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
diff --git a/DevIL/src-IL/src/il_wbmp.cpp b/DevIL/src-IL/src/il_wbmp.cpp
index 5d750ed..5864851 100755
--- a/DevIL/src-IL/src/il_wbmp.cpp
+++ b/DevIL/src-IL/src/il_wbmp.cpp
@@ -116,7 +116,7 @@ ILboolean iLoadWbmpInternal(void)
 
 	bclose(File);
 
-	return IL_TRUE;
+	return ilFixImage();
 }
 
 
diff --git a/DevIL/src-IL/src/il_xpm.cpp b/DevIL/src-IL/src/il_xpm.cpp
index 847a962..5565d8d 100644
--- a/DevIL/src-IL/src/il_xpm.cpp
+++ b/DevIL/src-IL/src/il_xpm.cpp
@@ -651,7 +651,7 @@ ILboolean iLoadXpmInternal()
 #else
 	ifree(Colours);
 #endif
-	return IL_TRUE;
+	return ilFixImage();
 
 #undef BUFFER_SIZE
 }
-- 
2.43.0


From 05a655fde05969b3359cc3f62a2f91d1037268d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 39/81] fix: quantizer forgets its scratch buffers once they
 are freed

---
 DevIL/src-IL/src/il_quantizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 0e00572..230aab6 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -593,6 +593,8 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		}
 		ifree(tag);
 		ifree(Qadd);
+		tag = NULL;
+		Qadd = NULL;
 
 		for (k = 0; k < NumCols; k++) {
 			Palette[k * 3]     = lut_b[k];
@@ -639,5 +641,6 @@ error_label:
 	ifree(Ir);
 	ifree(tag);
 	ifree(Qadd);
+	Qadd = NULL;
 	return NULL;
 }
-- 
2.43.0


From c45f51d51c909d583811f5aab2f58be4d3cda057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 40/81] fix: PNM, PSP, GIF, TPL, TGA, PCX and BMP readers do
 not keep freed buffers reachable

---
 DevIL/src-IL/src/il_bmp.cpp   | 2 ++
 DevIL/src-IL/src/il_gif.cpp   | 4 +++-
 DevIL/src-IL/src/il_pcx.cpp   | 2 ++
 DevIL/src-IL/src/il_pnm.cpp   | 7 +------
 DevIL/src-IL/src/il_psp.cpp   | 1 +
 DevIL/src-IL/src/il_targa.cpp | 4 +++-
 DevIL/src-IL/src/il_tpl.cpp   | 1 +
 7 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index 8cff8db..deb2e30 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -340,6 +340,8 @@ ILboolean ilReadUncompBmp(BMPHEAD * Header)
 		ilSetError(IL_ILLEGAL_FILE_VALUE);
 		if (iCurImage->Pal.Palette)
 			ifree(iCurImage->Pal.Palette);
+		iCurImage->Pal.Palette = NULL;
+		iCurImage->Pal.PalSize = 0;
 		return IL_FALSE;
 	}
 
diff --git a/DevIL/src-IL/src/il_gif.cpp b/DevIL/src-IL/src/il_gif.cpp
index bf4013c..028d417 100644
--- a/DevIL/src-IL/src/il_gif.cpp
+++ b/DevIL/src-IL/src/il_gif.cpp
@@ -533,7 +533,9 @@ static void cleanUpGifLoadState()
 	ifree(stack);
 	ifree(suffix);
 	ifree(prefix);
-
+	stack = NULL;
+	suffix = NULL;
+	prefix = NULL;
 }
 
 ILboolean GifGetData(ILimage *Image, ILubyte *Data, ILuint ImageSize, ILuint Width, ILuint Height, ILuint Stride, ILuint PalOffset, GFXCONTROL *Gfx)
diff --git a/DevIL/src-IL/src/il_pcx.cpp b/DevIL/src-IL/src/il_pcx.cpp
index 1ab0210..ba60dd0 100644
--- a/DevIL/src-IL/src/il_pcx.cpp
+++ b/DevIL/src-IL/src/il_pcx.cpp
@@ -324,6 +324,7 @@ ILboolean iUncompressPcx(PCXHEAD *Header)
 			iCurImage->Format = IL_LUMINANCE;
 			if (iCurImage->Pal.Palette)
 				ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			iCurImage->Pal.PalSize = 0;
 			iCurImage->Pal.PalType = IL_PAL_NONE;
 		}
@@ -420,6 +421,7 @@ ILboolean iUncompressSmall(PCXHEAD *Header)
 		if (iCurImage->Pal.Palette == NULL || ScanLine == NULL) {
 			ifree(ScanLine);
 			ifree(iCurImage->Pal.Palette);
+			iCurImage->Pal.Palette = NULL;
 			return IL_FALSE;
 		}
 		memcpy(iCurImage->Pal.Palette, Header->ColMap, 16 * 3);
diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index dc87cc9..a6a4178 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -409,10 +409,8 @@ ILimage *ilReadBinaryPpm(PPMINFO *Info)
 	ILuint size = itell();
 	iseek(size-Size,IL_SEEK_SET);
 	*/
-	if (iread(iCurImage->Data, 1, Size) != Size) {
-		ilCloseImage(iCurImage);	
+	if (iread(iCurImage->Data, 1, Size) != Size)
 		return NULL;
-	}
 	return iCurImage;
 }
 
@@ -551,10 +549,7 @@ ILboolean ilReadPam()
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	if (iread(iCurImage->Data, 1, Size) != Size)
-	{
-		ilCloseImage(iCurImage);
 		return IL_FALSE;
-	}
 
 	return ilFixImage();
 }
diff --git a/DevIL/src-IL/src/il_psp.cpp b/DevIL/src-IL/src/il_psp.cpp
index 013c69c..8a36ea0 100644
--- a/DevIL/src-IL/src/il_psp.cpp
+++ b/DevIL/src-IL/src/il_psp.cpp
@@ -613,6 +613,7 @@ ILboolean ReadPalette(ILuint BlockLen)
 
 	if (iread(Pal.Palette, Pal.PalSize, 1) != 1) {
 		ifree(Pal.Palette);
+		Pal.Palette = NULL;
 		return IL_FALSE;
 	}
 
diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index d043851..2cfe70d 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -265,8 +265,10 @@ ILboolean iReadColMapTga(TARGAHEAD *Header)
 	if (!ilTexImage(Header->Width, Header->Height, 1, (ILubyte)(Header->Bpp >> 3), 0, IL_UNSIGNED_BYTE, NULL)) {
 		return IL_FALSE;
 	}
-	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize)
+	if (iCurImage->Pal.Palette && iCurImage->Pal.PalSize) {
 		ifree(iCurImage->Pal.Palette);
+		iCurImage->Pal.Palette = NULL;
+	}
 	
 	iCurImage->Format = IL_COLOUR_INDEX;
 	iCurImage->Pal.PalSize = Header->ColMapLen * (Header->ColMapEntSize >> 3);
diff --git a/DevIL/src-IL/src/il_tpl.cpp b/DevIL/src-IL/src/il_tpl.cpp
index bc254fa..f180060 100755
--- a/DevIL/src-IL/src/il_tpl.cpp
+++ b/DevIL/src-IL/src/il_tpl.cpp
@@ -771,6 +771,7 @@ ILboolean TplGetIndexImage(ILimage *Image, ILuint TexOff, ILuint DataFormat)
 			}
 			// Get rid of the palette, since we no longer need it.
 			ifree(Image->Pal.Palette);
+			Image->Pal.Palette = NULL;
 			Image->Pal.PalType = IL_PAL_NONE;
 			Image->Pal.PalSize = 0;
 			break;
-- 
2.43.0


From 76a39a9a1209dbe238dbbf2a2216efd04e762242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 41/81] fix: a failed PSD save does not close the bound image

---
 DevIL/src-IL/src/il_psd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index e3ec086..314e18a 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -1053,7 +1053,8 @@ ILboolean iSavePsdInternal()
 	if (TempImage->Origin == IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
-			ilCloseImage(TempImage);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From 2fc026899ec790fbfa9105e84893f78a922c305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 42/81] fix: a failed ilRegisterNum* closes the partial chain
 once and forgets it

---
 DevIL/src-IL/src/il_register.cpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/DevIL/src-IL/src/il_register.cpp b/DevIL/src-IL/src/il_register.cpp
index c40a25b..02fab66 100644
--- a/DevIL/src-IL/src/il_register.cpp
+++ b/DevIL/src-IL/src/il_register.cpp
@@ -285,7 +285,7 @@ void ILAPIENTRY ilRegisterFormat(ILenum Format)
 
 ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -309,12 +309,8 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 		Next->Faces = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Faces == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Faces;
-			while (Prev) {
-				Next = Prev->Faces;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Faces);
+			iCurImage->Faces = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Faces;
@@ -327,7 +323,7 @@ ILboolean ILAPIENTRY ilRegisterNumFaces(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -351,12 +347,8 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Mipmaps;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Mipmaps);
+			iCurImage->Mipmaps = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
@@ -369,7 +361,7 @@ ILboolean ILAPIENTRY ilRegisterMipNum(ILuint Num)
 
 ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 {
-	ILimage *Next, *Prev;
+	ILimage *Next;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
@@ -393,12 +385,8 @@ ILboolean ILAPIENTRY ilRegisterNumImages(ILuint Num)
 		Next->Next = ilNewImage(1, 1, 1, 1, 1);
 		if (Next->Next == NULL) {
 			// Clean up before we error out.
-			Prev = iCurImage->Next;
-			while (Prev) {
-				Next = Prev->Next;
-				ilCloseImage(Prev);
-				Prev = Next;
-			}
+			ilCloseImage(iCurImage->Next);
+			iCurImage->Next = NULL;
 			return IL_FALSE;
 		}
 		Next = Next->Next;
-- 
2.43.0


From 6bce20775f3b94628322c8ca8999f1510d90f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 43/81] fix: regions are not freed twice

---
 DevIL/src-ILU/src/ilu_region.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 6a2eada..3d7ea72 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -24,6 +24,7 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	if (Points == NULL || n == 0) {
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
+		RegionPointsi = NULL;
 		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
@@ -34,6 +35,9 @@ void ILAPIENTRY iluRegionfv(ILpointf *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	RegionPointsf = NULL;
+	PointNum = 0;
 	RegionPointsf = (ILpointf*)ialloc(sizeof(ILpointf) * n);
 	if (RegionPointsf == NULL)
 		return;
@@ -49,6 +53,7 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 		ifree(RegionPointsi);
 		ifree(RegionPointsf);
 		RegionPointsi = NULL;
+		RegionPointsf = NULL;
 		PointNum = 0;
 		return;
 	}
@@ -58,6 +63,9 @@ void ILAPIENTRY iluRegioniv(ILpointi *Points, ILuint n)
 	}
 	ifree(RegionPointsi);
 	ifree(RegionPointsf);
+	RegionPointsi = NULL;
+	RegionPointsf = NULL;
+	PointNum = 0;
 	RegionPointsi = (ILpointi*)ialloc(sizeof(ILpointi) * n);
 	if (RegionPointsi == NULL)
 		return;
@@ -308,6 +316,7 @@ error:
 
 	ifree(edges);
 	ifree(iRegionMask);
+	iRegionMask = NULL;
 	return NULL;
 }
 
-- 
2.43.0


From e80c9f1e32dfe7c9741250ecc8e2fe4eb807a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 44/81] fix: ilTexImage with an invalid type left the image
 pointing at released memory

---
 DevIL/src-IL/src/il_devil.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index de285e9..09da2a5 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -19,13 +19,15 @@
 ILAPI ILboolean ILAPIENTRY ilInitImage(ILimage *Image, ILuint Width, ILuint Height, ILuint Depth, ILubyte Bpp, ILenum Format, ILenum Type, void *Data)
 {
 	ILubyte BpcType = ilGetBpcType(Type);
+
+	// Whatever Image refers to has been released already, so always clear it.
+	memset(Image, 0, sizeof(ILimage));
+
 	if (BpcType == 0) {
 		ilSetError(IL_INVALID_PARAM);
 		return IL_FALSE;
 	}
 
-	memset(Image, 0, sizeof(ILimage));
-
 	////
 	if (Width  == 0) Width = 1;
 	if (Height == 0) Height = 1;
-- 
2.43.0


From f9de2fc609dd6c15d00e47c5e6af0e32fcf3ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 45/81] fix: closing, replacing or copying over an image left
 part of its storage unreleased

---
 DevIL/src-IL/src/il_dds.cpp   |  2 +-
 DevIL/src-IL/src/il_devil.cpp | 17 +++++++++++++----
 DevIL/src-IL/src/il_stack.cpp | 10 +++++-----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds.cpp b/DevIL/src-IL/src/il_dds.cpp
index 1bda22e..334d7cb 100644
--- a/DevIL/src-IL/src/il_dds.cpp
+++ b/DevIL/src-IL/src/il_dds.cpp
@@ -2377,7 +2377,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImageDxtc(ILint w, ILint h, ILint d, ILenum DxtF
 	////
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 09da2a5..45b2a66 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -142,7 +142,7 @@ ILAPI ILboolean ILAPIENTRY ilTexImage_(ILimage *Image, ILuint Width, ILuint Heig
 	////
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
@@ -205,7 +205,7 @@ ILboolean ILAPIENTRY ilTexImageSurface_(ILimage *Image, ILuint Width, ILuint Hei
 	////
 
 	// Not sure if we should be getting rid of the palette...
-	if (Image->Pal.Palette && Image->Pal.PalSize && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette) {
 		ifree(Image->Pal.Palette);
 	}
 
@@ -985,9 +985,16 @@ ILAPI ILboolean ILAPIENTRY ilCopyImageAttr(ILimage *Dest, ILimage *Src)
 		return IL_FALSE;
 	}
 	
-	if (Dest->Pal.Palette && Dest->Pal.PalSize && Dest->Pal.PalType != IL_PAL_NONE) {
+	if (Dest->Pal.Palette) {
 		ifree(Dest->Pal.Palette);
 		Dest->Pal.Palette = NULL;
+		Dest->Pal.PalSize = 0;
+		Dest->Pal.PalType = IL_PAL_NONE;
+	}
+	if (Dest->AnimList) {
+		ifree(Dest->AnimList);
+		Dest->AnimList = NULL;
+		Dest->AnimSize = 0;
 	}
 	if (Dest->Faces) {
 		ilCloseImage(Dest->Faces);
@@ -1102,8 +1109,10 @@ ILAPI ILimage* ILAPIENTRY ilCopyImage_(ILimage *Src)
 		return NULL;
 	}
 	
-	if (ilCopyImageAttr(Dest, Src) == IL_FALSE)
+	if (ilCopyImageAttr(Dest, Src) == IL_FALSE) {
+		ilCloseImage(Dest);
 		return NULL;
+	}
 	
 	memcpy(Dest->Data, Src->Data, Src->SizeOfData);
 	
diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 786d624..fbc9f54 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -210,7 +210,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 		Image->Data = NULL;
 	}
 
-	if (Image->Pal.Palette != NULL && Image->Pal.PalSize > 0 && Image->Pal.PalType != IL_PAL_NONE) {
+	if (Image->Pal.Palette != NULL) {
 		ifree(Image->Pal.Palette);
 		Image->Pal.Palette = NULL;
 	}
@@ -222,7 +222,7 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 
 	if (Image->Faces != NULL) {
 		ilCloseImage(Image->Faces);
-		Image->Mipmaps = NULL;
+		Image->Faces = NULL;
 	}
 
 	if (Image->Mipmaps != NULL) {
@@ -235,18 +235,18 @@ ILAPI void ILAPIENTRY ilCloseImage(ILimage *Image)
 		Image->Layers = NULL;
 	}
 
-	if (Image->AnimList != NULL && Image->AnimSize != 0) {
+	if (Image->AnimList != NULL) {
 		ifree(Image->AnimList);
 		Image->AnimList = NULL;
 	}
 
-	if (Image->Profile != NULL && Image->ProfileSize != 0) {
+	if (Image->Profile != NULL) {
 		ifree(Image->Profile);
 		Image->Profile = NULL;
 		Image->ProfileSize = 0;
 	}
 
-	if (Image->DxtcData != NULL && Image->DxtcFormat != IL_DXT_NO_COMP) {
+	if (Image->DxtcData != NULL) {
 		ifree(Image->DxtcData);
 		Image->DxtcData = NULL;
 		Image->DxtcFormat = IL_DXT_NO_COMP;
-- 
2.43.0


From 83c784607e6202c4b548f20498e2fea7b2b919d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 46/81] fix: a converted palette that was not used was not
 released

---
 DevIL/src-IL/src/il_pal.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/DevIL/src-IL/src/il_pal.cpp b/DevIL/src-IL/src/il_pal.cpp
index 1333fc7..cffc7bd 100644
--- a/DevIL/src-IL/src/il_pal.cpp
+++ b/DevIL/src-IL/src/il_pal.cpp
@@ -693,7 +693,7 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
@@ -815,14 +815,14 @@ ILAPI ILpal* ILAPIENTRY iConvertPal(ILpal *Pal, ILenum DestFormat)
 
 				default:
 					ilSetError(IL_INVALID_PARAM);
-					return NULL;
+					goto alloc_error;
 			}
 			break;
 
 
 		default:
 			ilSetError(IL_INVALID_PARAM);
-			return NULL;
+			goto alloc_error;
 	}
 
 	NewPal->PalType = DestFormat;
@@ -853,14 +853,8 @@ ILboolean ILAPIENTRY ilConvertPal(ILenum DestFormat)
 	ifree(iCurImage->Pal.Palette);
 	iCurImage->Pal.PalSize = Pal->PalSize;
 	iCurImage->Pal.PalType = Pal->PalType;
+	iCurImage->Pal.Palette = Pal->Palette;
 
-	iCurImage->Pal.Palette = (ILubyte*)ialloc(Pal->PalSize);
-	if (iCurImage->Pal.Palette == NULL) {
-		return IL_FALSE;
-	}
-	memcpy(iCurImage->Pal.Palette, Pal->Palette, Pal->PalSize);
-
-	ifree(Pal->Palette);
 	ifree(Pal);
 	
 	return IL_TRUE;
-- 
2.43.0


From 2f11cf0bc6738baf1e23053da386707c2bd1aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 47/81] fix: ilConvertBuffer left its intermediate buffer
 unreleased on failures and for palettes

---
 DevIL/src-IL/src/il_convbuff.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index 53126a5..fb505e2 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -62,6 +62,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 	if (DestFormat == SrcFormat) {
 		NewData = (ILubyte*)ialloc(NumPix * BpcDest);
 		if (NewData == NULL) {
+			if (Data != Buffer)
+				ifree(Data);
 			return IL_FALSE;
 		}
 		memcpy(NewData, Data, NumPix * BpcDest);
@@ -81,8 +83,11 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		}
 		// We create a temporary palette image so that we can send it to iConvertPalette.
 		PalImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
-		if (PalImage == NULL)
+		if (PalImage == NULL) {
+			if (Data != Buffer)
+				ifree(Data);
 			return NULL;
+		}
 		// Populate the temporary palette image.
 		PalImage->Pal.Palette = SrcPal->Palette;
 		PalImage->Pal.PalSize = SrcPal->PalSize;
@@ -103,6 +108,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 			PalImage->Pal.Palette = NULL;
 			PalImage->Data = NULL;
 			ilCloseImage(PalImage);
+			if (Data != Buffer)
+				ifree(Data);
 			return NULL;
 		}
 
@@ -117,6 +124,8 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 		// Clean up here.
 		ilCloseImage(PalImage);
 		ilCloseImage(TempImage);
+		if (Data != Buffer)
+			ifree(Data);
 		return NewData;
 	}
 	
-- 
2.43.0


From de7dce4b2cbe2c5a5f13cd5874bdffa93b059613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 48/81] fix: the quantizer left its scratch image or palette
 unreleased when a later allocation failed

---
 DevIL/src-IL/src/il_quantizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_quantizer.cpp b/DevIL/src-IL/src/il_quantizer.cpp
index 230aab6..fc48bdf 100644
--- a/DevIL/src-IL/src/il_quantizer.cpp
+++ b/DevIL/src-IL/src/il_quantizer.cpp
@@ -448,6 +448,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 	if (!NewData || !Palette) {
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -460,6 +461,7 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 		ifree(Ib);
 		ifree(NewData);
 		ifree(Palette);
+		ilCloseImage(TempImage);
 		return NULL;
 	}
 
@@ -616,6 +618,8 @@ ILimage *iQuantizeImage(ILimage *Image, ILuint NumCols)
 
 	NewImage = (ILimage*)icalloc(sizeof(ILimage), 1);
 	if (NewImage == NULL) {
+		ifree(NewData);
+		ifree(Palette);
 		return NULL;
 	}
 	ilCopyImageAttr(NewImage, Image);
@@ -642,5 +646,6 @@ error_label:
 	ifree(tag);
 	ifree(Qadd);
 	Qadd = NULL;
+	ilCloseImage(TempImage);
 	return NULL;
 }
-- 
2.43.0


From f13f864376824dcb248d272191c6b937f74d0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 49/81] fix: ilGetAlpha left the converted copy unreleased when
 the result could not be allocated

---
 DevIL/src-IL/src/il_manip.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 79acc99..2acd674 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -914,6 +914,8 @@ ILubyte* ILAPIENTRY ilGetAlpha(ILenum Type)
 	// If our format is alpha, just return a copy.
 	if (TempImage->Format == IL_ALPHA) {
 		memcpy(Alpha, TempImage->Data, TempImage->SizeOfData);
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		return Alpha;
 	}
 		
-- 
2.43.0


From 65e172f209536bf38e32658cfd1917eb927730b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 50/81] fix: a .sun header with an unknown type left the bit
 file unreleased

---
 DevIL/src-IL/src/il_sun.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_sun.cpp b/DevIL/src-IL/src/il_sun.cpp
index 9f72f95..042f90a 100644
--- a/DevIL/src-IL/src/il_sun.cpp
+++ b/DevIL/src-IL/src/il_sun.cpp
@@ -221,18 +221,23 @@ ILboolean iLoadSunInternal(void)
 			if (File == NULL)
 				return IL_FALSE;
 
-			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL))
+			if (!ilTexImage(Header.Width, Header.Height, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, NULL)) {
+				bclose(File);
 				return IL_FALSE;
+			}
 			if (Header.ColorMapLength != 0) {
 				// Data should be an index into the color map, but the color map should only be RGB (6 bytes, 2 entries).
 				if (Header.ColorMapLength != 6) {
+					bclose(File);
 					ilSetError(IL_INVALID_FILE_HEADER);
 					return IL_FALSE;
 				}
 			}
 			iCurImage->Pal.Palette = (ILubyte*)ialloc(6);  // Just need 2 entries in the color map.
-			if (iCurImage->Pal.Palette == NULL)
+			if (iCurImage->Pal.Palette == NULL) {
+				bclose(File);
 				return IL_FALSE;
+			}
 			if (Header.ColorMapLength == 0) {  // Create the color map
 				iCurImage->Pal.Palette[0] = 0x00;  // Entry for black
 				iCurImage->Pal.Palette[1] = 0x00;
@@ -255,6 +260,7 @@ ILboolean iLoadSunInternal(void)
 				//bseek(File, BitPadding, IL_SEEK_CUR);  //@TODO: This function does not work correctly.
 				bread(PaddingData, 1, Padding, File);  // Skip padding bits.
 			}
+			bclose(File);
 			break;
 
 
-- 
2.43.0


From 040fa9ecbb55a9ec457f95ea93acbc55d9ea9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 51/81] fix: loading or saving a .psd left colour data and
 converted images unreleased on failure

---
 DevIL/src-IL/src/il_psd.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/DevIL/src-IL/src/il_psd.cpp b/DevIL/src-IL/src/il_psd.cpp
index 314e18a..315550d 100644
--- a/DevIL/src-IL/src/il_psd.cpp
+++ b/DevIL/src-IL/src/il_psd.cpp
@@ -251,7 +251,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 	Head->Channels = 1;  // Temporary to read only one channel...some greyscale .psd files have 2.
 	if (Head->Channels != 1) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -263,7 +263,7 @@ ILboolean ReadGrey(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 
 	if (!ilTexImage(Head->Width, Head->Height, 1, 1, IL_LUMINANCE, Type, NULL))
@@ -302,7 +302,7 @@ ILboolean ReadIndexed(PSDHEAD *Head)
 	ResourceSize = GetBigUInt();  // Read the 'image resources section'
 	Resources = (ILubyte*)ialloc(ResourceSize);
 	if (Resources == NULL) {
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 	if (iread(Resources, 1, ResourceSize) != ResourceSize)
 		goto cleanup_error;
@@ -400,7 +400,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 	else
 	{
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
-		return IL_FALSE;
+		goto cleanup_error;
 	}
 
 	switch (Head->Depth)
@@ -413,7 +413,7 @@ ILboolean ReadRGB(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (Format==IL_RGB) ? 3 : 4, Format, Type, NULL))
 		goto cleanup_error;
@@ -468,7 +468,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	switch (Head->Depth)
 	{
@@ -480,7 +480,7 @@ ILboolean ReadCMYK(PSDHEAD *Head)
 			break;
 		default:
 			ilSetError(IL_FORMAT_NOT_SUPPORTED);
-			return IL_FALSE;
+			goto cleanup_error;
 	}
 	if (!ilTexImage(Head->Width, Head->Height, 1, (ILubyte)Head->Channels, Format, Type, NULL))
 		goto cleanup_error;
@@ -657,6 +657,7 @@ ILboolean PsdGetData(PSDHEAD *Head, void *Buffer, ILboolean Compressed)
 	//	file that uses this.
 	if (Compressed && iCurImage->Type == IL_UNSIGNED_SHORT) {
 		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+		ifree(Channel);
 		return IL_FALSE;
 	}
 
@@ -1020,6 +1021,8 @@ ILboolean iSavePsdInternal()
 			break;
 		default:
 			ilSetError(IL_INTERNAL_ERROR);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
 	}
 
@@ -1027,8 +1030,11 @@ ILboolean iSavePsdInternal()
 		// @TODO: We're currently making a potentially fatal assumption that
 		//	iConvertImage was not called if the format is IL_COLOUR_INDEX.
 		TempPal = iConvertPal(&TempImage->Pal, IL_PAL_RGB24);
-		if (TempPal == NULL)
+		if (TempPal == NULL) {
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
 			return IL_FALSE;
+		}
 		SaveBigInt(768);
 
 		// Have to save the palette in a planar format.
@@ -1038,7 +1044,7 @@ ILboolean iSavePsdInternal()
 			}
 		}
 
-		ifree(TempPal->Palette);
+		ilClosePal(TempPal);
 	}
 	else {
 		SaveBigInt(0);  // No colour mode data.
-- 
2.43.0


From 8f8ab337bde05283cb9d509c8bfd11edfceeaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 52/81] fix: failed .pcd and .sct loads left their row buffers
 unreleased

---
 DevIL/src-IL/src/il_pcd.cpp    | 3 +++
 DevIL/src-IL/src/il_scitex.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/DevIL/src-IL/src/il_pcd.cpp b/DevIL/src-IL/src/il_pcd.cpp
index 3ce4202..f707acd 100644
--- a/DevIL/src-IL/src/il_pcd.cpp
+++ b/DevIL/src-IL/src/il_pcd.cpp
@@ -159,6 +159,9 @@ ILboolean iLoadPcdInternal()
 	}
 
 	if (!ilTexImage(Width, Height, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)) {
+		ifree(Y1);
+		ifree(Y2);
+		ifree(CbCr);
 		return IL_FALSE;
 	}
 	iCurImage->Origin = IL_ORIGIN_LOWER_LEFT;
diff --git a/DevIL/src-IL/src/il_scitex.cpp b/DevIL/src-IL/src/il_scitex.cpp
index c2a863d..e9bbb7f 100644
--- a/DevIL/src-IL/src/il_scitex.cpp
+++ b/DevIL/src-IL/src/il_scitex.cpp
@@ -286,6 +286,7 @@ ILboolean iLoadScitexInternal(void)
 		//case 15:
 		//default:
 	}
+	ifree(RowData);
 	iCurImage->Origin = IL_ORIGIN_UPPER_LEFT;
 
 	return ilFixImage();
-- 
2.43.0


From 7297af24944cbd52106242fb7c3606b7d612256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 53/81] fix: a failed .ktx load left the key data or the
 compressed block unreleased

---
 DevIL/src-IL/src/il_ktx.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_ktx.cpp b/DevIL/src-IL/src/il_ktx.cpp
index 51db2da..ac17727 100644
--- a/DevIL/src-IL/src/il_ktx.cpp
+++ b/DevIL/src-IL/src/il_ktx.cpp
@@ -340,11 +340,14 @@ ILboolean iLoadKtxInternal()
 				if (FullBuffer == NULL)
 					return IL_FALSE;
 				if (imageSize != Header.pixelWidth * Header.pixelHeight / 2) {
+					ifree(FullBuffer);
 					ilSetError(IL_ILLEGAL_FILE_VALUE);
 					return IL_FALSE;
 				}
-				if (iread(FullBuffer, 1, imageSize) != imageSize)
+				if (iread(FullBuffer, 1, imageSize) != imageSize) {
+					ifree(FullBuffer);
 					return IL_FALSE;
+				}
 
 				ILuint BlockPos = 0;
 				for (ILuint y = 0; y < iCurImage->Height; y+=4)
@@ -392,8 +395,10 @@ ILboolean iKtxKeyValueData(ILuint bytesOfKeyValueData, ILenum &Origin)
 	if (KeyValueData == NULL)
 		return IL_FALSE;
 
-	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData)
+	if (iread(KeyValueData, 1, bytesOfKeyValueData) != bytesOfKeyValueData) {
+		ifree(KeyValueData);
 		return IL_FALSE;
+	}
 
 	// Just a very rudimentary check on the origin values
 	while (Pos < bytesOfKeyValueData)
-- 
2.43.0


From f1cdb59f7d9a6c2b93c49a63d7770f279622ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 54/81] fix: a failed .blp load left palette, pixel or JPEG
 data unreleased

---
 DevIL/src-IL/src/il_blp.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_blp.cpp b/DevIL/src-IL/src/il_blp.cpp
index c405324..63b25dd 100755
--- a/DevIL/src-IL/src/il_blp.cpp
+++ b/DevIL/src-IL/src/il_blp.cpp
@@ -330,8 +330,11 @@ ILboolean iLoadBlpInternal(void)
 						}
 						else {
 							Image->Mipmaps = ilNewImageFull(Image->Width >> 1, Image->Height >> 1, 1, 4, IL_BGRA, IL_UNSIGNED_BYTE, NULL);
-							if (Image->Mipmaps == NULL)
+							if (Image->Mipmaps == NULL) {
+								ifree(DataAndAlpha);
+								ifree(Palette);
 								return IL_FALSE;
+							}
 
 							// Move to the next mipmap in the linked list.
 							Image = Image->Mipmaps;
@@ -345,6 +348,8 @@ ILboolean iLoadBlpInternal(void)
 							AlphaSize = 1;  // Should never be 0.
 						// These two should be the same (tells us how much data is in the file for this mipmap level).
 						if (Header.MipLengths[Mip] != Image->SizeOfData / 4 + AlphaSize) {
+							ifree(DataAndAlpha);
+							ifree(Palette);
 							ilSetError(IL_INVALID_FILE_HEADER);
 							return IL_FALSE;
 						}
@@ -599,14 +604,20 @@ ILboolean iLoadBlp1()
 					return IL_FALSE;
 				}
 				memcpy(JpegData, JpegHeader, JpegHeaderSize);
-				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1)
+				if (iread(JpegData + JpegHeaderSize, Header.MipLengths[i], 1) != 1) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// Just send the data straight to the Jpeg loader.  It makes JpegData
 				//  the input, so go back to the start of our own input before that.
 				iseek(0, IL_SEEK_SET);
-				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i]))
+				if (!ilLoadJpegL(JpegData, JpegHeaderSize + Header.MipLengths[i])) {
+					ifree(JpegData);
+					ifree(JpegHeader);
 					return IL_FALSE;
+				}
 
 				// The image data is in BGR(A) order, even though it is Jpeg-compressed.
 				if (Image->Format == IL_RGBA)
@@ -691,6 +702,7 @@ ILboolean iLoadBlp1()
 
 					// Read in the data and the palette.
 					if (iread(Palette, 1, 1024) != 1024) {
+						ifree(DataAndAlpha);
 						ifree(Palette);
 						return IL_FALSE;
 					}
-- 
2.43.0


From 4be10e76fe2e7b4bd52fc070e825882e75d46c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 55/81] fix: loading a .rot left the compressed data of earlier
 levels unreleased

---
 DevIL/src-IL/src/il_rot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index a15efb0..f3a585e 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -116,11 +116,8 @@ ILboolean iLoadRotInternal(void)
 		case ROT_DXT5:  // DXT5
 			Channels = 4;
 			FormatIL = IL_RGBA;
-			// Allocates the maximum needed (the first width/height given in the file).
+			// The maximum needed (the first width/height given in the file).
 			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 16;
-			CompData = (ILubyte*)ialloc(CompSize);
-			if (CompData == NULL)
-				return IL_FALSE;
 			break;
 
 		default:
@@ -211,8 +208,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT1 data...
-				if (iread(CompData, CompSize, 1) != 1)
+				if (iread(CompData, CompSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT1(Image, CompData)) {
 					ifree(CompData);
@@ -238,8 +237,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT3 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT3(Image, CompData)) {
 					ifree(CompData);
@@ -265,8 +266,10 @@ ILboolean iLoadRotInternal(void)
 					return IL_FALSE;
 
 				// Read in the DXT5 data...
-				if (iread(CompData, MipSize, 1) != 1)
+				if (iread(CompData, MipSize, 1) != 1) {
+					ifree(CompData);
 					return IL_FALSE;
+				}
 				// ...and decompress it.
 				if (!DecompressDXT5(Image, CompData)) {
 					ifree(CompData);
@@ -282,6 +285,7 @@ ILboolean iLoadRotInternal(void)
 				break;
 		}
 		ifree(CompData);  // Free it if it was not saved.
+		CompData = NULL;
 	} while (!ieof());  //@TODO: Is there any other condition that should end this?
 
 	return ilFixImage();
-- 
2.43.0


From e01455c571de76b08df35c958970ce2cfa6e6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 56/81] fix: a failed .icns icon left its data unreleased

---
 DevIL/src-IL/src/il_icns.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_icns.cpp b/DevIL/src-IL/src/il_icns.cpp
index d9483b8..c317b6a 100644
--- a/DevIL/src-IL/src/il_icns.cpp
+++ b/DevIL/src-IL/src/il_icns.cpp
@@ -309,6 +309,7 @@ ILboolean iIcnsReadData(ILboolean *BaseCreated, ILboolean IsAlpha, ILint Width,
 			return IL_TRUE;
 		}
 #else  // Cannot handle this size.
+		ifree(Data);
 		ilSetError(IL_LIB_JP2_ERROR);  //@TODO: Handle this better...just skip the data.
 		return IL_FALSE;
 #endif//IL_NO_JP2
-- 
2.43.0


From 02ff464e8f5777b65c3061d02cfc109259cdc009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 57/81] fix: a failed .pnm load left the image information
 unreleased

---
 DevIL/src-IL/src/il_pnm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_pnm.cpp b/DevIL/src-IL/src/il_pnm.cpp
index a6a4178..79c6740 100644
--- a/DevIL/src-IL/src/il_pnm.cpp
+++ b/DevIL/src-IL/src/il_pnm.cpp
@@ -785,6 +785,7 @@ ILboolean iSavePnmInternal()
 		return IL_FALSE;
 
 	if (Bpp != TempImage->Bpp) {
+		ilCloseImage(TempImage);
 		ilSetError(IL_INVALID_CONVERSION);
 		return IL_FALSE;
 	}
-- 
2.43.0


From a18a2e22680dbe9f3966ed328a2205a42698b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 58/81] fix: saving a .bmp left a converted palette unreleased
 when the image was converted or could not be

---
 DevIL/src-IL/src/il_bmp.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_bmp.cpp b/DevIL/src-IL/src/il_bmp.cpp
index deb2e30..2f25087 100644
--- a/DevIL/src-IL/src/il_bmp.cpp
+++ b/DevIL/src-IL/src/il_bmp.cpp
@@ -958,12 +958,18 @@ ILboolean iSaveBitmapInternal()
 		} else {
 			TempImage = iConvertImage(iCurImage, IL_BGR, IL_UNSIGNED_BYTE);
 		}
-		if (TempImage == NULL)
+		if (TempImage == NULL) {
+			if (TempPal != &iCurImage->Pal)
+				ilClosePal(TempPal);
 			return IL_FALSE;
+		}
 	} else if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
+		if (TempImage == NULL) {
+			if (TempPal != &iCurImage->Pal)
+				ilClosePal(TempPal);
 			return IL_FALSE;
+		}
 	} else {
 		TempImage = iCurImage;
 	}
@@ -971,6 +977,8 @@ ILboolean iSaveBitmapInternal()
 	if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT) {
 		TempData = iGetFlipped(TempImage);
 		if (TempData == NULL) {
+			if (TempPal != &iCurImage->Pal)
+				ilClosePal(TempPal);
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
 			return IL_FALSE;
-- 
2.43.0


From 20b6ff27cce409193c33c45714ce4ceaa3ebe2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 59/81] fix: saving a .h left the header name unreleased

---
 DevIL/src-IL/src/il_header.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/DevIL/src-IL/src/il_header.cpp b/DevIL/src-IL/src/il_header.cpp
index 715e391..0a08c3b 100644
--- a/DevIL/src-IL/src/il_header.cpp
+++ b/DevIL/src-IL/src/il_header.cpp
@@ -24,38 +24,45 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 	ILuint		i = 0, j;
 	ILimage		*TempImage;
 	const char	*Name;
+	char		*HeaderName;
 
 	if (iCurImage == NULL) {
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
-	Name = iGetString(IL_CHEAD_HEADER_STRING);
+	HeaderName = iGetString(IL_CHEAD_HEADER_STRING);
+	Name = HeaderName;
 	if (Name == NULL)
 		Name = InternalName;
 
 	if (FileName == NULL || Name == NULL ||
 		ilStrLen(FileName) < 1 || ilCharStrLen(Name) < 1) {
 		ilSetError(IL_INVALID_VALUE);
+		ifree(HeaderName);
 		return IL_FALSE;
 	}
 
 	if (!iCheckExtension(FileName, IL_TEXT("h"))) {
 		ilSetError(IL_INVALID_EXTENSION);
+		ifree(HeaderName);
 		return IL_FALSE;
 	}
 
 	if (ilGetBoolean(IL_FILE_MODE) == IL_FALSE) {
 		if (iFileExists(FileName)) {
 			ilSetError(IL_FILE_ALREADY_EXISTS);
+            ifree(HeaderName);
             return IL_FALSE;
 		}
 	}
 
 	if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
-		if (TempImage == NULL)
-           return IL_FALSE;
+		if (TempImage == NULL) {
+			ifree(HeaderName);
+			return IL_FALSE;
+		}
 	} else {
 		TempImage = iCurImage;
 	}
@@ -65,6 +72,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		if (TempImage != iCurImage)
 			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
+        ifree(HeaderName);
         return IL_FALSE;
 	}
 	iSetOutputFile(HeadFile);
@@ -120,6 +128,7 @@ ILboolean ilSaveCHeader(ILconst_string FileName, char *InternalName)
 		ilprintf("};\n");
 	}
 	iclosew(HeadFile);
+	ifree(HeaderName);
 	return IL_TRUE;
 }
 
-- 
2.43.0


From 7ff26f6ed6c2f20fc05ec1e158c7b4b6afbc90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 60/81] fix: failed .png and .tif saves left converted images
 and strings unreleased

---
 DevIL/src-IL/src/il_png.cpp  | 2 ++
 DevIL/src-IL/src/il_tiff.cpp | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_png.cpp b/DevIL/src-IL/src/il_png.cpp
index f52d172..7be7c0c 100644
--- a/DevIL/src-IL/src/il_png.cpp
+++ b/DevIL/src-IL/src/il_png.cpp
@@ -613,6 +613,8 @@ ILboolean iSavePngInternal()
 		TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_RGB24);
 		if (TempPal == NULL) {
 			png_destroy_write_struct(&png_ptr, &info_ptr);
+			if (Temp != iCurImage)
+				ilCloseImage(Temp);
 			return IL_FALSE;
 		}
 		png_set_PLTE(png_ptr, info_ptr, (png_colorp)TempPal->Palette, numCols);
diff --git a/DevIL/src-IL/src/il_tiff.cpp b/DevIL/src-IL/src/il_tiff.cpp
index c45f5d4..0c9bf9e 100644
--- a/DevIL/src-IL/src/il_tiff.cpp
+++ b/DevIL/src-IL/src/il_tiff.cpp
@@ -1003,6 +1003,8 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 	// Control writing functions ourself.
 	File = iTIFFOpen((char*)"w");
 	if (File == NULL) {
+		if (TempImage != iCurImage)
+			ilCloseImage(TempImage);
 		ilSetError(IL_COULD_NOT_OPEN_FILE);
 		return IL_FALSE;
 	}
@@ -1036,7 +1038,7 @@ ILboolean iSaveTiffInternal(/*ILconst_string Filename*/)
 
 
 	str = iGetString(IL_TIF_AUTHNAME_STRING);
-	if (iGetString(IL_TIF_AUTHNAME_STRING)) {
+	if (str) {
 		TIFFSetField(File, TIFFTAG_ARTIST, str);
 		ifree(str);
 	}
-- 
2.43.0


From 1f9a97919fec6646b8dc5c7fe9826c0314a58d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 61/81] fix: a failed .tga save left strings and palette
 unreleased and red and blue swapped

---
 DevIL/src-IL/src/il_targa.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index 2cfe70d..c9b0d89 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -619,6 +619,9 @@ ILboolean iSaveTargaInternal()
 	ILshort		zero_short = 0;
 
 	if (iCurImage == NULL) {
+		ifree(ID);
+		ifree(AuthName);
+		ifree(AuthComment);
 		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
@@ -698,9 +701,15 @@ ILboolean iSaveTargaInternal()
 		case IL_PAL_BGR32:
 		case IL_PAL_BGRA32:
 			TempPal = iConvertPal(&iCurImage->Pal, IL_PAL_BGR24);
-			if (TempPal == NULL)
+			if (TempPal == NULL) {
+				ifree(ID);
+				ifree(AuthName);
+				ifree(AuthComment);
+				if (Format == IL_RGB || Format == IL_RGBA)
+					ilSwapColours();
 				return IL_FALSE;
-				PalSize = (ILshort)(TempPal->PalSize / 3);
+			}
+			PalSize = (ILshort)(TempPal->PalSize / 3);
 			PalEntSize = 24;
 			break;
 		default:
@@ -708,8 +717,8 @@ ILboolean iSaveTargaInternal()
 			ifree(ID);
 			ifree(AuthName);
 			ifree(AuthComment);
-			PalSize = 0;
-			PalEntSize = 0;
+			if (Format == IL_RGB || Format == IL_RGBA)
+				ilSwapColours();
 			return IL_FALSE;
 	}
 	SaveLittleShort(PalSize);
@@ -718,6 +727,10 @@ ILboolean iSaveTargaInternal()
 	if (iCurImage->Bpc > 1) {
 		TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 		if (TempImage == NULL) {
+			if (TempPal != &iCurImage->Pal && TempPal != NULL)
+				ilClosePal(TempPal);
+			if (Format == IL_RGB || Format == IL_RGBA)
+				ilSwapColours();
 			ifree(ID);
 			ifree(AuthName);
 			ifree(AuthComment);
@@ -733,6 +746,10 @@ ILboolean iSaveTargaInternal()
 		if (TempData == NULL) {
 			if (TempImage != iCurImage)
 				ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL)
+				ilClosePal(TempPal);
+			if (Format == IL_RGB || Format == IL_RGBA)
+				ilSwapColours();
 			ifree(ID);
 			ifree(AuthName);
 			ifree(AuthComment);
@@ -775,6 +792,14 @@ ILboolean iSaveTargaInternal()
 	else {
 		Rle = (ILubyte*)ialloc(TempImage->SizeOfData + TempImage->SizeOfData / 2 + 1);	// max
 		if (Rle == NULL) {
+			if (TempImage->Origin != IL_ORIGIN_LOWER_LEFT)
+				ifree(TempData);
+			if (TempImage != iCurImage)
+				ilCloseImage(TempImage);
+			if (TempPal != &iCurImage->Pal && TempPal != NULL)
+				ilClosePal(TempPal);
+			if (Format == IL_RGB || Format == IL_RGBA)
+				ilSwapColours();
 			ifree(AuthName);
 			ifree(AuthComment);
 			return IL_FALSE;
-- 
2.43.0


From 0c0279fe9d24d67e46d244f87f0e2a393f6ce922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 62/81] fix: saving a .vtf left compressed data unreleased and
 converted 16-bit images to an unknown format

---
 DevIL/src-IL/src/il_vtf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_vtf.cpp b/DevIL/src-IL/src/il_vtf.cpp
index 1386951..a9483fb 100644
--- a/DevIL/src-IL/src/il_vtf.cpp
+++ b/DevIL/src-IL/src/il_vtf.cpp
@@ -841,8 +841,8 @@ ILboolean iSaveVtfInternal()
 		if (TempImage->Format == IL_RGBA && TempImage->Type == IL_UNSIGNED_SHORT) {
 			Format = IMAGE_FORMAT_RGBA16161616;
 		}
-		else if (TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
-			TempImage = iConvertImage(iCurImage, Format, IL_UNSIGNED_BYTE);
+		else if (TempImage == iCurImage && TempImage->Type != IL_UNSIGNED_BYTE) {  //@TODO: Any possibility for shorts, etc. to be used?
+			TempImage = iConvertImage(iCurImage, iCurImage->Format, IL_UNSIGNED_BYTE);
 			if (TempImage == NULL)
 				return IL_FALSE;
 		}
@@ -948,6 +948,7 @@ ILboolean iSaveVtfInternal()
 		// DXT compress the data.
 		CompSize = ilGetDXTCData(CompData, CompSize, Compression);
 		if (CompSize == 0) {
+			ifree(CompData);
 			ilSetError(IL_INTERNAL_ERROR);
 			if (TempData != TempImage->Data)
 				ifree(TempData);
@@ -960,6 +961,7 @@ ILboolean iSaveVtfInternal()
 				ifree(TempData);
 			return IL_FALSE;
 		}
+		ifree(CompData);
 	}
 
 	if (TempData != TempImage->Data)
-- 
2.43.0


From 4d852f5ffc95b577cee829c3ccdde19f477a4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 63/81] fix: iluScale's advanced filters left the result
 unreleased when the copy failed

---
 DevIL/src-ILU/src/ilu_filter_rcg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-ILU/src/ilu_filter_rcg.cpp b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
index ada7aab..7c48dcb 100644
--- a/DevIL/src-ILU/src/ilu_filter_rcg.cpp
+++ b/DevIL/src-ILU/src/ilu_filter_rcg.cpp
@@ -479,6 +479,7 @@ ILuint iluScaleAdvanced(ILuint Width, ILuint Height, ILenum Filter)
 	Dest->Duration = iluCurImage->Duration;
 	for (c = 0; c < (ILuint)iluCurImage->Bpp; c++) {
 		if (zoom(Dest, iluCurImage, f, s) != 0) {
+			ilCloseImage(Dest);
 			return IL_FALSE;
 		}
 	}
-- 
2.43.0


From 26284fbc2f124a235647d6ba028d727597f84c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 64/81] fix: iluEqualize2 and iluRotate left working copies
 unreleased on failure

---
 DevIL/src-ILU/src/ilu_manip.cpp  | 1 +
 DevIL/src-ILU/src/ilu_rotate.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 0ed2cfa..16f60b7 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -1018,6 +1018,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 	for (ILuint c = 0; c < 3; c++) {
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
+			ifree(Corrected);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index 1735d6b..ee57e50 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -18,7 +18,6 @@
 ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 {
 	ILimage	*Temp, *Temp1, *CurImage = NULL;
-	ILenum	PalType = 0;
 
 	iluCurImage = ilGetCurImage();
 	if (iluCurImage == NULL) {
@@ -27,7 +26,6 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 	}
 
 	if (iluCurImage->Format == IL_COLOUR_INDEX) {
-		PalType = iluCurImage->Pal.PalType;
 		CurImage = iluCurImage;
 		iluCurImage = iConvertImage(iluCurImage, ilGetPalBaseType(CurImage->Pal.PalType), IL_UNSIGNED_BYTE);
 		if (iluCurImage == NULL)
@@ -36,7 +34,7 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 
 	Temp = iluRotate_(iluCurImage, Angle);
 	if (Temp != NULL) {
-		if (PalType != 0) {
+		if (CurImage != NULL) {
 			ilCloseImage(iluCurImage);
 			Temp1 = iConvertImage(Temp, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
 			ilCloseImage(Temp);
@@ -49,7 +47,7 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 			ilCloseImage(Temp);
 			return IL_FALSE;
 		}
-		if (PalType != 0) {
+		if (CurImage != NULL) {
 			iluCurImage = ilGetCurImage();
 			iluCurImage->Pal.PalSize = Temp->Pal.PalSize;
 			iluCurImage->Pal.PalType = Temp->Pal.PalType;
@@ -65,6 +63,8 @@ ILboolean ILAPIENTRY iluRotate(ILfloat Angle)
 		ilCloseImage(Temp);
 		return IL_TRUE;
 	}
+	if (CurImage != NULL)
+		ilCloseImage(iluCurImage);
 	return IL_FALSE;
 }
 
-- 
2.43.0


From bae192b925cfa813817c045ba1aae3d5b725f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 65/81] fix: filling a region left the list of active edges
 unreleased

---
 DevIL/src-ILU/src/ilu_region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-ILU/src/ilu_region.cpp b/DevIL/src-ILU/src/ilu_region.cpp
index 3d7ea72..fdc7284 100644
--- a/DevIL/src-ILU/src/ilu_region.cpp
+++ b/DevIL/src-ILU/src/ilu_region.cpp
@@ -297,6 +297,7 @@ ILubyte *iScanFill()
 		}
 	}*/
 
+	ifree(active);
 	ifree(edges);
 
 	if (RegionPointsf) {
-- 
2.43.0


From f5089f2c09c19da65110c98eb08b0825b04d362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 66/81] fix: the end marker of run-length encoded data was
 written into the image being saved

---
 DevIL/src-IL/src/il_rle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_rle.cpp b/DevIL/src-IL/src/il_rle.cpp
index c572631..a4aa39e 100644
--- a/DevIL/src-IL/src/il_rle.cpp
+++ b/DevIL/src-IL/src/il_rle.cpp
@@ -145,8 +145,8 @@ ILuint ilRleCompress(ILubyte *Data, ILuint Width, ILuint Height, ILuint Depth, I
 	}
 	
 	if( CompressMode == IL_BMPCOMP ) { // add end of image
-		*(Data+DestW) = 0x00; DestW++;
-		*(Data+DestW) = 0x01; DestW++;
+		*(Dest+DestW) = 0x00; DestW++;
+		*(Dest+DestW) = 0x01; DestW++;
 	}
 
 	return DestW;
-- 
2.43.0


From da379d282a688e815bb5e0d5ab1fd75a022088b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 67/81] fix: ilCopyImage with a subimage selected wrote the
 copy into two different images

---
 DevIL/src-IL/src/il_devil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 45b2a66..8daf874 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -1087,6 +1087,11 @@ ILboolean ILAPIENTRY ilCopyImage(ILuint Src)
 	ilBindImage(Src);
 	SrcImage = iCurImage;
 	ilBindImage(DestName);
+	iCurImage = DestImage;  // A subimage may have been selected.
+	if (SrcImage == NULL)
+		return IL_FALSE;
+	if (SrcImage == DestImage)  // Nothing to copy
+		return IL_TRUE;
 	if (!ilTexImage(SrcImage->Width, SrcImage->Height, SrcImage->Depth, SrcImage->Bpp, SrcImage->Format, SrcImage->Type, SrcImage->Data))
 		return IL_FALSE;
 	
-- 
2.43.0


From df8f1720cbad60eddaa54786ed12d3ed2c84a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 68/81] fix: compressing with libsquish reported a wrong size
 and lost the converted pixels on failure

---
 DevIL/src-IL/src/il_dds-save.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index 0b36e8a..be27535 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -763,8 +763,11 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 
 				// Get compressed data here.
 				BlockData = ilSquishCompressDXT(ByteData, Image->Width, Image->Height, 1, DXTCFormat, &DXTCSize);
-				if (BlockData == NULL)
+				if (BlockData == NULL) {
+					if (ByteData != Image->Data)
+						ifree(ByteData);
 					return 0;
+				}
 
 				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
 					if (ByteData != Image->Data)
@@ -777,7 +780,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 					ifree(ByteData);
 				ifree(BlockData);
 
-				return Image->Width * Image->Height * 4;  // Either compresses all or none.
+				return DXTCSize;  // Either compresses all or none.
 			}
 		}
 #endif//IL_USE_DXTC_SQUISH
-- 
2.43.0


From 8a471990b86c35e52fc9424e44a08bc66eb686a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 69/81] fix: failing manipulations returned failure without
 recording an error

---
 DevIL/src-IL/src/il_convbuff.cpp |  4 ++++
 DevIL/src-IL/src/il_dds-save.cpp | 14 ++++++++++++--
 DevIL/src-IL/src/il_devil.cpp    |  2 ++
 DevIL/src-IL/src/il_manip.cpp    |  4 +++-
 DevIL/src-ILU/src/ilu_filter.cpp |  4 ++--
 DevIL/src-ILU/src/ilu_manip.cpp  |  3 ++-
 DevIL/src-ILU/src/ilu_rotate.cpp |  1 +
 7 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/DevIL/src-IL/src/il_convbuff.cpp b/DevIL/src-IL/src/il_convbuff.cpp
index fb505e2..0c347ed 100644
--- a/DevIL/src-IL/src/il_convbuff.cpp
+++ b/DevIL/src-IL/src/il_convbuff.cpp
@@ -1967,6 +1967,10 @@ ILAPI void* ILAPIENTRY ilConvertBuffer(ILuint SizeOfData, ILenum SrcFormat, ILen
 					return NULL;
 			}
 			break;
+
+		default:
+			ilSetError(IL_INVALID_CONVERSION);
+			break;
 	}
 
 	if (Data != Buffer)
diff --git a/DevIL/src-IL/src/il_dds-save.cpp b/DevIL/src-IL/src/il_dds-save.cpp
index be27535..a8ff396 100644
--- a/DevIL/src-IL/src/il_dds-save.cpp
+++ b/DevIL/src-IL/src/il_dds-save.cpp
@@ -342,16 +342,22 @@ ILuint ILAPIENTRY ilGetDXTCData(void *Buffer, ILuint BufferSize, ILenum DXTCForm
 			case IL_DXT1:
 			case IL_DXT1A:
 			case IL_ATI1N:
-				return BlockNum * 8;
+				retVal = BlockNum * 8;
+				break;
 			case IL_DXT3:
 			case IL_DXT5:
 			case IL_3DC:
 			case IL_RXGB:
-				return BlockNum * 16;
+				retVal = BlockNum * 16;
+				break;
 			default:
 				ilSetError(IL_FORMAT_NOT_SUPPORTED);
 				return 0;
 		}
+
+		if (retVal == 0)  // Too many blocks to be counted
+			ilSetError(IL_ILLEGAL_OPERATION);
+		return retVal;
 	}
 
 	if (DXTCFormat == iCurImage->DxtcFormat && iCurImage->DxtcSize && iCurImage->DxtcData) {
@@ -770,6 +776,7 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 				}
 
 				if (iwrite(BlockData, 1, DXTCSize) != DXTCSize) {
+					ilSetError(IL_FILE_WRITE_ERROR);
 					if (ByteData != Image->Data)
 						ifree(ByteData);
 					ifree(BlockData);
@@ -935,6 +942,9 @@ ILuint Compress(ILimage *Image, ILenum DXTCFormat)
 		ifree(Alpha);
 	} //else no 3DC
 
+	if (Count == 0)  // Not one of the formats above.
+		ilSetError(IL_FORMAT_NOT_SUPPORTED);
+
 	return Count;  // Returns 0 if no compression was done.
 }
 
diff --git a/DevIL/src-IL/src/il_devil.cpp b/DevIL/src-IL/src/il_devil.cpp
index 8daf874..e60c334 100644
--- a/DevIL/src-IL/src/il_devil.cpp
+++ b/DevIL/src-IL/src/il_devil.cpp
@@ -67,6 +67,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImage(ILuint Width, ILuint Height, ILuint Depth,
 	ILimage *Image;
 
 	if (Bpp == 0 || Bpp > 4) {
+		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
@@ -93,6 +94,7 @@ ILAPI ILimage* ILAPIENTRY ilNewImageFull(ILuint Width, ILuint Height, ILuint Dep
 	ILimage *Image;
 
 	if (Bpp == 0 || Bpp > 4) {
+		ilSetError(IL_INVALID_PARAM);
 		return NULL;
 	}
 
diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 2acd674..9427415 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -1138,8 +1138,10 @@ ILboolean ILAPIENTRY ilClampNTSC(void)
         return IL_FALSE;
     }
 
-	if (iCurImage->Type != IL_UNSIGNED_BYTE)  // Should we set an error here?
+	if (iCurImage->Type != IL_UNSIGNED_BYTE) {
+		ilSetError(IL_ILLEGAL_OPERATION);
 		return IL_FALSE;
+	}
 
 	for (z = 0; z < iCurImage->Depth; z++) {
 		for (y = 0; y < iCurImage->Height; y++) {
diff --git a/DevIL/src-ILU/src/ilu_filter.cpp b/DevIL/src-ILU/src/ilu_filter.cpp
index dd40336..66e1c87 100644
--- a/DevIL/src-ILU/src/ilu_filter.cpp
+++ b/DevIL/src-ILU/src/ilu_filter.cpp
@@ -1160,7 +1160,7 @@ ILboolean ILAPIENTRY iluAlienify(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
@@ -1394,7 +1394,7 @@ ILboolean ILAPIENTRY iluSepia(void)
 		break;
 
 		default:
-			//ilSetError(ILU_ILLEGAL_OPERATION);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 	}
 
diff --git a/DevIL/src-ILU/src/ilu_manip.cpp b/DevIL/src-ILU/src/ilu_manip.cpp
index 16f60b7..d2e9749 100644
--- a/DevIL/src-ILU/src/ilu_manip.cpp
+++ b/DevIL/src-ILU/src/ilu_manip.cpp
@@ -978,7 +978,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 
 	if (ChanAvgsCopy[0] < 1.0 || ChanAvgsCopy[2] < 1.0) {
 		// This prevents division by 0 - could possibly be lowered less than 1
-		//ilSetError(IL_INTERNAL_ERROR);
+		ilSetError(ILU_ILLEGAL_OPERATION);
 		return IL_FALSE;
 	}
 
@@ -1019,6 +1019,7 @@ ILboolean ILAPIENTRY iluEqualize2(void)
 		if ((MaxVals[c] - MinVals[c]) < 1.0) {
 			// This is the case if an image is a solid color. The original image is unmodified.
 			ifree(Corrected);
+			ilSetError(ILU_ILLEGAL_OPERATION);
 			return IL_FALSE;
 		}
 	}
diff --git a/DevIL/src-ILU/src/ilu_rotate.cpp b/DevIL/src-ILU/src/ilu_rotate.cpp
index ee57e50..91aae38 100644
--- a/DevIL/src-ILU/src/ilu_rotate.cpp
+++ b/DevIL/src-ILU/src/ilu_rotate.cpp
@@ -376,5 +376,6 @@ ILAPI ILimage* ILAPIENTRY iluRotate_(ILimage *Image, ILfloat Angle)
 ILAPI ILimage* ILAPIENTRY iluRotate3D_(ILimage *Image, ILfloat x, ILfloat y, ILfloat z, ILfloat Angle)
 {
 	Image; x; y; z; Angle;
+	ilSetError(ILU_INTERNAL_ERROR);  // Not implemented yet.
 	return NULL;
 }
-- 
2.43.0


From 790c6e620670e29c0ef2aa7299cc992feb6cfcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 70/81] fix: ilGenImages handed out names in use again and left
 names it could not create uninitialised

---
 DevIL/src-IL/src/il_stack.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index fbc9f54..20c72b3 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -54,6 +54,7 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 		ilSetError(IL_INVALID_VALUE);
 		return;
 	}
+	memset(Images, 0, Num * sizeof(ILuint));  // For those that cannot be created
 
 	// No images have been generated yet, so create the image stack.
 	if (ImageStack == NULL)
@@ -61,6 +62,12 @@ void ILAPIENTRY ilGenImages(ILsizei Num, ILuint *Images)
 			return;
 
 	do {
+		// A deleted name can have come back into use through ilBindImage.
+		while (FreeNames != NULL && ImageStack[FreeNames->Name] != NULL) {
+			TempFree = (iFree*)FreeNames->Next;
+			ifree(FreeNames);
+			FreeNames = TempFree;
+		}
 		if (FreeNames != NULL) {  // If any have been deleted, then reuse their image names.
                         TempFree = (iFree*)FreeNames->Next;
                         Images[Index] = FreeNames->Name;
-- 
2.43.0


From 9a709335caff4958165b7dea1e9268a64b6c87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 71/81] fix: ilReplaceCurImage closed the selected subimage
 instead of the image replaced

---
 DevIL/src-IL/src/il_stack.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 20c72b3..18511cc 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -545,11 +545,9 @@ ILAPI void ILAPIENTRY ilSetCurImage(ILimage *Image)
 // Completely replaces the current image and the version in the image stack.
 ILAPI void ILAPIENTRY ilReplaceCurImage(ILimage *Image)
 {
-	if (iCurImage) {
-		ilActiveImage(0);
-		ilCloseImage(iCurImage);
-	}
-	ImageStack[ilGetCurName()] = Image;
+	CurName = ilGetCurName();
+	ilCloseImage(ImageStack[CurName]);  // A subimage of it can be the selected one.
+	ImageStack[CurName] = Image;
 	iCurImage = Image;
 	ParentImage = IL_TRUE;
 	return;
-- 
2.43.0


From 77b8fa356ba530d0b27ae2eaae9f5b070757a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 72/81] fix: failing to enlarge the image stack lost all images

---
 DevIL/src-IL/src/il_stack.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 18511cc..648b96e 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -597,9 +597,11 @@ ILboolean iEnlargeStack()
 		OnExit = IL_TRUE;
 	}
 
-	if (!(ImageStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*)))) {
+	ILimage **NewStack = (ILimage**)ilRecalloc(ImageStack, StackSize * sizeof(ILimage*), (StackSize + I_STACK_INCREMENT) * sizeof(ILimage*));
+	if (NewStack == NULL) {
 		return IL_FALSE;
 	}
+	ImageStack = NewStack;
 	StackSize += I_STACK_INCREMENT;
 	return IL_TRUE;
 }
-- 
2.43.0


From ce4ede30857ebec56568428476439785b59cd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 73/81] fix: ilShutDown left a closed image selected

---
 DevIL/src-IL/src/il_stack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 648b96e..71a215c 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -675,6 +675,8 @@ void ILAPIENTRY ilShutDown()
 	ImageStack = NULL;
 	LastUsed = 0;
 	StackSize = 0;
+	iCurImage = NULL;  // Was one of those just closed
+	CurName = 0;
 	IsInit = IL_FALSE;
 	return;
 }
-- 
2.43.0


From 2dd7668060111a209f2b3e2901ed07b8672e89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 74/81] fix: ilInit forgot images generated before it

---
 DevIL/src-IL/src/il_stack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_stack.cpp b/DevIL/src-IL/src/il_stack.cpp
index 71a215c..c3ef6c6 100644
--- a/DevIL/src-IL/src/il_stack.cpp
+++ b/DevIL/src-IL/src/il_stack.cpp
@@ -689,7 +689,8 @@ void iSetImage0()
 		if (!iEnlargeStack())
 			return;
 
-	LastUsed = 1;
+	if (LastUsed < 1)  // Images can have been generated already.
+		LastUsed = 1;
 	CurName = 0;
 	ParentImage = IL_TRUE;
 	if (!ImageStack[0])
-- 
2.43.0


From c280270747a958472db3332377c2ae02ccb5f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:19 +0000
Subject: [PATCH 75/81] fix: il_targa: end caching before seeking past an
 overlong run

---
 DevIL/src-IL/src/il_targa.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_targa.cpp b/DevIL/src-IL/src/il_targa.cpp
index c9b0d89..32efdb8 100644
--- a/DevIL/src-IL/src/il_targa.cpp
+++ b/DevIL/src-IL/src/il_targa.cpp
@@ -485,8 +485,10 @@ ILboolean iUncompressTgaData(ILimage *Image)
 			}
 			BytesRead += RunLen;
 
-			if (BytesRead + RunLen > Size)
+			if (RunLen > ToRead) {  // Ends the image; the rest of the run is skipped in the file itself.
+				iUnCache();
 				iseek(RunLen - ToRead, IL_SEEK_CUR);
+			}
 		}
 	}
 	
-- 
2.43.0


From 46187268e7f799eebe0c4730415908348529f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 76/81] fix: il_files: cached reads past the end of the file
 report it instead of returning uninitialised memory

---
 DevIL/src-IL/src/il_files.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/DevIL/src-IL/src/il_files.cpp b/DevIL/src-IL/src/il_files.cpp
index 839a695..c113daa 100644
--- a/DevIL/src-IL/src/il_files.cpp
+++ b/DevIL/src-IL/src/il_files.cpp
@@ -463,6 +463,10 @@ ILint ILAPIENTRY iGetcFile(void)
 	if (CachePos >= CacheSize) {
 		if (!iPreCache(CacheSize))
 			return IL_EOF;
+		if (CacheSize == 0) {  // End of the file
+			ilSetError(IL_FILE_READ_ERROR);
+			return IL_EOF;
+		}
 	}
 
 	CacheBytesRead++;
@@ -518,7 +522,7 @@ ILuint ILAPIENTRY iReadFile(void *Buffer, ILuint Size, ILuint Number)
 			TotalBytes += BytesCopied;
 			CachePos += BytesCopied;
 			if (TotalBytes < BuffSize) {
-				if (!iPreCache(CacheSize))
+				if (!iPreCache(CacheSize) || CacheSize == 0)
 					break;
 			}
 		}
@@ -587,10 +591,9 @@ ILboolean iPreCache(ILuint Size)
 	CacheSize = iread(Cache, 1, Size);
 	if (CacheSize != Size)
 		ilGetError();  // Get rid of the IL_FILE_READ_ERROR.
+	if (CacheSize > Size)  // The read procedure failed.
+		CacheSize = 0;
 
-	//2003-09-09: uncommented the following line to prevent
-	//an infinite loop in ilPreCache()
-	CacheSize = Size;
 	CachePos = 0;
 	UseCache = IL_TRUE;
 	CacheBytesRead = 0;
-- 
2.43.0


From 25047a80f729f58663f688767d5198eabd36cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:35 +0000
Subject: [PATCH 77/81] fix: il_squish: an unsupported DXT format ends the
 compression instead of using unset flags

---
 DevIL/src-IL/src/il_squish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DevIL/src-IL/src/il_squish.cpp b/DevIL/src-IL/src/il_squish.cpp
index 20819d5..a5e7f01 100755
--- a/DevIL/src-IL/src/il_squish.cpp
+++ b/DevIL/src-IL/src/il_squish.cpp
@@ -65,7 +65,7 @@ ILAPI ILubyte* ILAPIENTRY ilSquishCompressDXT(ILubyte *Data, ILuint Width, ILuin
 			break;
 		default:  // Does not support DXT2 or DXT4.
 			ilSetError(IL_INVALID_PARAM);
-			break;
+			return NULL;
 	}
 
 	Size = squish::GetStorageRequirements(Width, Height, Flags);
-- 
2.43.0


From f4655e102736aea9d4cdb94ceba7695d405ca24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:35 +0000
Subject: [PATCH 78/81] fix: ilSetAlpha refuses a format without a known alpha
 position instead of writing at an unset one

---
 DevIL/src-IL/src/il_manip.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DevIL/src-IL/src/il_manip.cpp b/DevIL/src-IL/src/il_manip.cpp
index 9427415..fe16419 100644
--- a/DevIL/src-IL/src/il_manip.cpp
+++ b/DevIL/src-IL/src/il_manip.cpp
@@ -998,6 +998,9 @@ ILboolean ILAPIENTRY ilSetAlpha(ILdouble AlphaValue)
 			ret = ilConvertImage(IL_RGBA, Image->Type);
 			AlphaOff = 4;
 			break;
+		default:
+			ilSetError(IL_ILLEGAL_OPERATION);
+			return IL_FALSE;
 	}
 	if (ret == IL_FALSE) {
 		// Error has been set by ilConvertImage.
-- 
2.43.0


From cfc159f2a350727cdf10bbbd12940d6210effd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:35 +0000
Subject: [PATCH 79/81] fix: iConvertPalette looks at the palette type of the
 image it converts

---
 DevIL/src-IL/src/il_convert.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DevIL/src-IL/src/il_convert.cpp b/DevIL/src-IL/src/il_convert.cpp
index 221f3c3..18bbb68 100644
--- a/DevIL/src-IL/src/il_convert.cpp
+++ b/DevIL/src-IL/src/il_convert.cpp
@@ -23,7 +23,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 	ILfloat		Resultf;
 	ILubyte		*Temp = NULL;
 	ILboolean	Converted;
-	ILboolean	HasAlpha;
+	ILboolean	HasAlpha = IL_FALSE;
 
 	NewImage = (ILimage*)icalloc(1, sizeof(ILimage));  // Much better to have it all set to 0.
 	if (NewImage == NULL) {
@@ -48,7 +48,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 		if (DestFormat == IL_LUMINANCE_ALPHA)
 			LumBpp = 2;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			case IL_PAL_RGB24:
 			case IL_PAL_RGB32:
@@ -65,7 +65,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_RGBA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -89,7 +89,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 					}
 					Temp[k] = (ILubyte)Resultf;
 					if (LumBpp == 2) {
-						if (iCurImage->Pal.PalType == IL_PAL_RGBA32)
+						if (Image->Pal.PalType == IL_PAL_RGBA32)
 							Temp[k+1] = Image->Pal.Palette[i + 3];
 						else
 							Temp[k+1] = 0xff;
@@ -131,7 +131,7 @@ ILimage *iConvertPalette(ILimage *Image, ILenum DestFormat)
 			ifree(NewImage->Pal.Palette);
 		NewImage->Pal.Palette = NULL;
 
-		switch (iCurImage->Pal.PalType)
+		switch (Image->Pal.PalType)
 		{
 			// Opaque, so all the values are 0xFF.
 			case IL_PAL_RGB24:
-- 
2.43.0


From 2f9000166a9c04fc34fceb3448d02f34ae122089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:59 +0000
Subject: [PATCH 80/81] fix: il_rot: the size limit of mipmap data is set for
 uncompressed and DXT1 images too

---
 DevIL/src-IL/src/il_rot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DevIL/src-IL/src/il_rot.cpp b/DevIL/src-IL/src/il_rot.cpp
index f3a585e..73d7c71 100644
--- a/DevIL/src-IL/src/il_rot.cpp
+++ b/DevIL/src-IL/src/il_rot.cpp
@@ -105,11 +105,13 @@ ILboolean iLoadRotInternal(void)
 		case ROT_RGBA32:  // 32-bit RGBA format
 			Channels = 4;
 			FormatIL = IL_RGBA;
+			CompSize = Width * Height * 4;
 			break;
 
 		case ROT_DXT1:  // DXT1 (no alpha)
 			Channels = 4;
 			FormatIL = IL_RGBA;
+			CompSize = ((Width + 3) / 4) * ((Height + 3) / 4) * 8;
 			break;
 
 		case ROT_DXT3:  // DXT3
-- 
2.43.0


From dcd6fb37c3fbc0cc34009ce2d5f881dc9a094dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:59 +0000
Subject: [PATCH 81/81] fix: il_utx: a property without a usable value no
 longer takes one that was never read

---
 DevIL/src-IL/src/il_utx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DevIL/src-IL/src/il_utx.cpp b/DevIL/src-IL/src/il_utx.cpp
index 6d10257..085ff66 100644
--- a/DevIL/src-IL/src/il_utx.cpp
+++ b/DevIL/src-IL/src/il_utx.cpp
@@ -403,6 +403,7 @@ ILboolean iLoadUtxInternal(void)
 				if (Type == 0xA2)
 					igetc();  // Byte is 1 here...
 
+				Val = -1;  // Not all types give us a value.
 				switch (Type & 0x0F)
 				{
 					case 1:  // Get a single byte.
-- 
2.43.0

