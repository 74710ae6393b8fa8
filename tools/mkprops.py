#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the committed file is what counts).
import json,os
P=[]
IL='DevIL/src-IL/src/'; IU='DevIL/src-ILU/src/'; II='DevIL/src-IL/include/'
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p('P01','Image layout is always consistent with its buffer',
 'After any successful operation that (re)defines an image\'s storage - defining image data, creating a blank image, resizing an image\'s buffer - the image reports the requested width, height, depth (a zero dimension counts as 1), channels, format and sample type, bytes per row = width x channels x sample size, bytes per slice = row x height, total bytes = slice x depth, all without arithmetic wrap-around, and it owns a buffer of at least that many bytes (holding the caller\'s pixels where they were given). A shape whose total size is not representable is refused with an error; nothing smaller is ever allocated for it.',
 'inputs','all widths, heights, depths (full 32-bit range), channel counts 1..4, pixel formats and sample types',
 'The tests define a few small images; products that wrap 32 bits, odd channel/type pairs and depth > 1 are never tried.',
 [IL+'il_devil.cpp',IL+'il_manip.cpp'],[('ilInitImage','il_devil.cpp'),('ilTexImage_','il_devil.cpp'),('ilTexImageSurface_','il_devil.cpp'),('ilNewImage','il_devil.cpp'),('ilNewImageFull','il_devil.cpp'),('ilResizeImage','il_devil.cpp')],
 [('ILimage','Width,Height,Depth,Bpp,Bpc,Bps,SizeOfPlane,SizeOfData,Data','DevIL/include/IL/devil_internal_exports.h')],['ilTexImage','ilGetInteger','ilGetData'])
p('P02','Image names stay unique and live until they are deleted',
 'Over any sequence of generating, binding and deleting image names, a generated name is non-zero, differs from every name that is currently in use (generated or bound and not deleted since), and a non-zero name is reported to be an image exactly from its generation or first bind until its deletion (initialising the library binds name 1). Binding a name makes that name\'s own image current, with the contents that name last had and with no effect on any other name\'s image; name 0 always denotes the default image and cannot be deleted.',
 'histories inputs','all histories of generate / bind / delete / is-image / current-name operations with arbitrary name arguments',
 'Unit tests generate and delete a handful of names in one fixed order; aliasing shows only in particular interleavings of deletes, rebinds of deleted names and generates.',
 [IL+'il_stack.cpp'],[('ilGenImages','il_stack.cpp'),('ilBindImage','il_stack.cpp'),('ilDeleteImages','il_stack.cpp'),('ilIsImage','il_stack.cpp')],
 [('ImageStack/StackSize/LastUsed/FreeNames','the table of named images and the list of reusable names','DevIL/src-IL/include/il_stack.h')],['ilGenImages','ilIsImage','ilGetInteger(IL_CUR_IMAGE)'])
p('P03','Copying an image yields an equal, independent image',
 'A copy of an image - cloned from, or copied over from, another image - has the same dimensions, format, type, origin, palette, colour profile, animation attributes and pixel bytes as its source. No buffer and no sub-image is shared with the source, which is unchanged, as are the current binding and every other image; if copying fails an error is recorded and no name is left over. Sub-images are not part of the copy.',
 'inputs','all images of any size, format and sample type, with or without palette, profile and sub-images',
 'The tests never copy images with palettes or sub-images and never check for aliasing between copies.',
 [IL+'il_devil.cpp'],[('ilCopyImageAttr','il_devil.cpp'),('ilCopyImage_','il_devil.cpp'),('ilCopyImage','il_devil.cpp'),('ilCloneCurImage','il_devil.cpp')],(),['ilCloneCurImage','ilCopyImage','ilGetData'])
p('P04','Selecting a sub-image reaches exactly the numbered one or changes nothing',
 'Selecting animation frame, face, layer or mipmap number k of the current image makes current exactly the k-th image in that chain (0 being the image itself) when it exists; otherwise the call fails with an error and the current image is unchanged. The reported numbers of frames, faces, layers and mipmaps are the lengths of those chains, so selection succeeds exactly for k up to the reported count; creating n frames, layers or mipmaps gives a chain of n.',
 'inputs histories','all chain shapes and lengths and all 32-bit selector values',
 'No existing test uses animation, faces, layers or mipmap selection.',
 [IL+'il_stack.cpp',IL+'il_states.cpp'],[('ilActiveImage/ilActiveFace/ilActiveLayer/ilActiveMipmap','il_stack.cpp'),('iGetActiveNum','il_stack.cpp'),('ilGetIntegerImage','il_states.cpp')],(),['ilActiveImage','ilActiveFace','ilActiveLayer','ilActiveMipmap','ilGetInteger'])
p('P05','Errors are reported newest first and the newest ones survive overflow',
 'Reading errors returns the recorded errors one at a time, most recent first, then reports that there is none. When more errors are recorded than the queue can hold, exactly the oldest ones are dropped and the rest keep their order.',
 'histories','all sequences of recording and reading errors',
 'Tests only check that no error is pending; ordering and overflow of the queue need long particular histories.',
 [IL+'il_error.cpp'],[('ilSetError','il_error.cpp'),('ilGetError','il_error.cpp')],[('ilErrorNum/ilErrorPlace','the queue and its top','il_error.cpp')],['ilGetError'])
p('P06','Reading a block of pixels returns exactly that block',
 'With origin forcing (IL_ORIGIN_SET) off, reading a block (offsets, sizes) of an image in the image\'s own format and type stores at position (x,y,z) of the destination the pixel at the offset position of the image; parts of the block beyond the image edge are left untouched in the destination. Nothing outside the destination block (width x height x depth pixels) is written, nothing outside the image is read, and the image is not changed.',
 'inputs','all image shapes, channel counts, sample sizes, offsets and block sizes including blocks that stick out of the image',
 'The tests never read sub-blocks; clipping on each axis and the row/slice strides of block and image differ only for specific offset/size combinations.',
 [IL+'il_manip.cpp',IL+'il_devil.cpp'],[('ilCopyPixels1D/2D/3D','il_manip.cpp'),('ilCopyPixels','il_manip.cpp')],(),['ilCopyPixels'])
p('P07','Writing a block of pixels changes exactly that block',
 'With origin forcing (IL_ORIGIN_SET) off, writing a block of pixels in the image\'s own format and type at an offset makes each image pixel covered by the block equal to the corresponding source pixel. Every pixel not covered by the block keeps its value; offsets may be negative and the block may stick out of the image on any side, in which case only the overlapping part is written and nothing outside the image or the source block is accessed.',
 'inputs','all image shapes, channel counts, sample sizes, signed offsets and block sizes',
 'Tests never write sub-blocks; clipping and stride errors show only for particular offset/size combinations.',
 [IL+'il_manip.cpp'],[('ilSetPixels1D/2D/3D','il_manip.cpp'),('ilSetPixels','il_manip.cpp')],(),['ilSetPixels','ilGetData'])
p('P08','Flip and mirror are exact pixel permutations',
 'Flipping an image upside down moves the pixel at (x,y,z) to (x,height-1-y,z) and mirroring moves it to (width-1-x,y,z), for every slice, with all samples of a pixel kept together and in order, and nothing else changed. This also holds for flipped copies of an image\'s data; applying either twice restores the image.',
 'inputs','all image shapes including odd/even and 1-pixel sizes, channel counts and sample sizes',
 'Tests flip and mirror one 24-bit 2-D image and check only that the result is unequal/equal in bulk; depth, 16/32/64-bit samples and odd sizes are not exercised.',
 [IL+'il_internal.cpp',IL+'il_manip.cpp',IL+'il_utility.cpp',IU+'ilu_manip.cpp'],[('iFlipBuffer/iFlipNewBuffer/iGetFlipped','il_internal.cpp / il_manip.cpp'),('iMirror','il_manip.cpp'),('iMemSwap','il_manip.cpp')],(),['iluFlipImage','iluMirror'])
p('P09','Pixel format conversion maps every channel of every pixel',
 'Converting pixel data between the RGB, RGBA, BGR, BGRA, luminance, luminance+alpha and alpha formats (same sample type) keeps red, green and blue in their (re-ordered) places, keeps alpha when both formats have it, drops it when the destination has none, gives full opacity when a colour or luminance destination has alpha and the source has none (an alpha-only destination is zero then), replicates luminance into red, green and blue (black from an alpha-only source; alpha-only to luminance is not offered), and computes luminance from the standard fixed weights. Signed samples count as the unsigned bit patterns they share. Adding or removing alpha and swapping the colour order of an image do the same in place. Pixel k of the result depends only on pixel k of the source, and exactly the destination size is written.',
 'inputs','all format pairs, all sample types, all pixel counts and values',
 'Tests convert one 8-bit picture between a few formats; there are about 50 format pairs times 5 sample-size families in separately written code.',
 [IL+'il_convbuff.cpp',IL+'il_convert.cpp',IL+'il_fastconv.cpp'],[('ilConvertBuffer','il_convbuff.cpp'),('iFastConvert','il_fastconv.cpp'),('ilSwapColours/ilAddAlpha/ilRemoveAlpha','il_convert.cpp')],(),['ilConvertImage','ilCopyPixels'])
p('P10','Sample type conversion is full-range and order preserving',
 'Converting samples between unsigned 8-, 16-, 32-bit, half, float and double types maps zero to zero and full scale to full scale, keeps the order of (finite) sample values, and narrowing integers keeps the most significant bits so that widening and narrowing again gives back the original samples. It converts every sample of the buffer and writes nothing beyond the converted buffer.',
 'inputs','all sample values of every type and all buffer sizes',
 'Tests never change sample type except through one float round trip; the value domain is too large to sample.',
 [IL+'il_convbuff.cpp'],[('iSwitchTypes','il_convbuff.cpp')],(),['ilConvertImage'])
p('P11','Converting an image leaves its geometry and identity intact',
 'Converting the current image to another format and/or sample type keeps its dimensions, origin, position/duration data and sub-image chains, updates format, type, channel count, sample size and all sizes consistently, and converts every image of the chain. If the conversion fails the image still has a consistent layout and its previous contents.',
 'inputs fault_sequences','all source/destination format and type pairs, all image sizes, failing allocations',
 'Tests convert one plain image and look only at the success flag.',
 [IL+'il_convert.cpp'],[('ilConvertImage/iConvertImage','il_convert.cpp')],(),['ilConvertImage','ilGetInteger'])
p('P12','Palette expansion and palette conversion preserve colours',
 'Expanding a colour-index image gives every pixel the colour its palette entry names, in the requested channel order, with the palette\'s alpha where it has one and full opacity otherwise; converting a palette between its layouts maps every entry\'s red, green, blue and alpha the same way and keeps the number of entries. Palette accesses stay inside the palette for every palette size, and no entry count is lost or invented.',
 'inputs','all palette layouts, palette sizes, index values inside the palette, image sizes and destination formats',
 'Tests only load files with 256-colour 24/32-bit palettes; the 6x6 layout pairs and small palettes are not exercised.',
 [IL+'il_convert.cpp',IL+'il_pal.cpp',IL+'il_internal.cpp'],[('iConvertPalette','il_convert.cpp'),('iConvertPal/ilConvertPal','il_pal.cpp'),('iCopyPalette/ilGetBppPal/ilGetPalBaseType','il_pal.cpp / il_internal.cpp')],(),['ilConvertImage','ilConvertPal','ilGetPalette'])
p('P13','Reading and replacing the alpha channel touches only alpha',
 'Extracting the alpha of a non-palette image returns one sample per pixel in the requested type: the pixel\'s alpha, or full opacity if the format has no alpha. Setting a constant alpha gives every pixel exactly that opacity (adding an alpha channel if the format has none) and leaves all colour samples as they were.',
 'inputs','all formats with and without alpha, all sample types, image sizes and alpha values',
 'Tests set alpha on one 8-bit image; each sample type has its own code path.',
 [IL+'il_manip.cpp',IL+'il_convert.cpp'],[('ilGetAlpha','il_manip.cpp'),('ilSetAlpha/ilModAlpha','il_manip.cpp'),('ilAddAlpha','il_convert.cpp')],(),['ilGetAlpha','ilSetAlpha','ilModAlpha'])
p('P14','Clearing fills the whole image with the clear colour',
 'Clearing an image makes every pixel equal to the current clear colour expressed in the image\'s format and sample type (zero for colour-index), in every slice, and writes nothing outside the image\'s data. The clear colour that is set is the one that is used, clamped to 0..1.',
 'inputs','all formats, sample types, image sizes and clear colours',
 'Tests clear at most one small 8-bit image.',
 [IL+'il_devil.cpp'],[('ilClearImage_','il_devil.cpp'),('ilGetClear/ilClearColour','il_devil.cpp')],(),['ilClearImage','ilClearColour'])
p('P15','State settings read back and illegal values change nothing',
 'Every settable mode - boolean modes, origin, format, type and filtering modes, hints, save/quality integers, format-specific strings and numbers - reads back the value last set when that value is legal for the mode. An illegal mode or value is refused with an error and leaves every setting as it was.',
 'inputs histories','all mode and value arguments (full enum range) in any order',
 'Tests set no states except overwrite and conversion flags; illegal values are never tried.',
 [IL+'il_states.cpp'],[('ilSetInteger/ilEnable/ilDisable/ilOriginFunc/ilFormatFunc/ilTypeFunc/ilCompressFunc/ilHint','il_states.cpp'),('iGetInt/ilGetInteger/ilIsEnabled','il_states.cpp')],(),['ilGetInteger','ilGetBoolean','ilIsEnabled'])
p('P16','Pushed state comes back on pop',
 'After pushing any set of state groups, changing any settings and popping, every setting (those in the pushed groups and all the others, hints included) has its value from before the push; right after a push the settings in the pushed groups still have the values they had. Pushes nest up to the documented depth; pushing beyond it or popping an empty stack is an error that changes nothing.',
 'histories inputs','all push masks and all interleavings of pushes, state changes and pops',
 'No test pushes or pops state.',
 [IL+'il_states.cpp'],[('ilPushAttrib/ilPopAttrib','il_states.cpp')],(),['ilPushAttrib','ilPopAttrib'])
p('P17','Memory-lump input and output stay inside the lump',
 'For lumps with a declared (non-zero) size: reading from a memory lump returns exactly the next bytes that remain (fewer at the end, with an error), never bytes outside it; writing to a memory lump stores exactly the given bytes and refuses what does not fit, never touching memory outside the lump. Seeking positions exactly where asked or fails leaving the position unchanged, the reported position always lies between 0 and the lump size, and mixing single-byte and block operations sees one consistent stream.',
 'histories inputs','all lump sizes and all sequences of read/getc/seek/tell/eof and write/putc/seek/tell with arbitrary arguments',
 'Tests load whole well-formed files from disk; lumps, negative seeks and requests beyond the end are not exercised.',
 [IL+'il_files.cpp'],[('iReadLump/iGetcLump/iSeekRLump/iTellRLump/iEofLump','il_files.cpp'),('iWriteLump/iPutcLump/iSeekWLump/iTellWLump','il_files.cpp')],[('ReadLumpPos/ReadLumpSize/WriteLumpPos/WriteLumpSize','stream positions','il_files.cpp')],['ilLoadL','ilSaveL'])
p('P18','Byte order helpers are exact and self-inverse',
 'The little- and big-endian readers return the number whose bytes, least respectively most significant first, are the next bytes of the stream, and the writers emit exactly those bytes, for 16- and 32-bit integers, floats and doubles; reading back what was written gives the same value. Byte swapping is its own inverse and reverses exactly the bytes of the value it is given.',
 'inputs','all 16- and 32-bit values and all float and double bit patterns',
 'Tests only see whole files of a little-endian machine; 64-bit and float paths are not exercised.',
 [IL+'il_endian.cpp',II+'il_endian.h'],[('iSwap*','il_endian.cpp'),('GetLittle*/GetBig*/SaveLittle*/SaveBig*','il_endian.cpp')],(),['ilLoadL','ilSaveL'])
p('P19','Half-float conversion is exact where exact is possible',
 'Converting a half-precision value to single precision is exact for every one of the 65536 patterns (signs, zeros, subnormals, infinities, NaN kept), and converting that back gives the same half. Converting any single-precision value to half gives a half of the same sign within half a unit in the last place (ties either way), overflow gives infinity, NaN stays NaN, and order is preserved.',
 'inputs','all 65536 half and all 2^32 single-precision patterns',
 'No test touches half floats; rounding boundaries are single points in a 2^32 space.',
 [IL+'il_manip.cpp'],[('ilFloatToHalf/ilHalfToFloat','il_manip.cpp')],(),['ilConvertImage with IL_HALF'])
p('P20','Run-length compressed lines decode to the original',
 'A line or image compressed with one of the run-length schemes the savers use (Targa and SGI, one to four bytes per pixel for Targa, one for SGI) decodes, by that scheme\'s published packet rules, to exactly the original samples; its reported length is the number of bytes produced, and the output never exceeds the scheme\'s worst case: one header byte per pixel (Targa, SGI), and the terminating byte (SGI). No packet exceeds the scheme\'s maximum run, and nothing outside the line is read.',
 'inputs','all line widths, pixel sizes and contents, both schemes',
 'Tests write RLE only by saving one TGA and one SGI picture; run boundaries at the maximum packet length and end-of-line combinations need specific contents.',
 [IL+'il_rle.cpp',II+'il_rle.h'],[('ilRleCompressLine/ilRleCompress','il_rle.cpp'),('CountDiffPixels/CountSamePixels','il_rle.h')],(),['ilSave with RLE enabled'])
p('P21','Compressed texture blocks decode by the published formulas',
 'Decompressing DXT1, DXT3 and DXT5 blocks gives every texel the colour and alpha that the published block layout defines (5/6-bit end points expanded by replicating their bits, interpolated colours and alphas rounded as published, the three-colour mode with transparent black for DXT1 end points in ascending order, the 6-alpha mode with 0 and 255 for DXT5 alphas in ascending order); ATI1N and 3Dc (ATI2N) blocks give every texel the interpolated value to within less than one, the second block of 3Dc first channel, first block second channel, and the third channel that completes the unit vector (to within one). This holds for every block content and every image size including sizes that are not multiples of four and volumes: only texels of the image are written, only its blocks are read.',
 'inputs','all 64/128-bit blocks and all image sizes',
 'Tests decode a few DDS files; each of 2^64 blocks is a different case and partial blocks at edges are rarely hit.',
 [IL+'il_dds.cpp'],[('DecompressDXT1/DecompressDXT3/DecompressDXT5/Decompress3Dc/DecompressAti1n','il_dds.cpp'),('DxtcReadColor/DxtcReadColors','il_dds.cpp'),('iLoadDdsInternal','il_dds.cpp')],(),['ilLoad of DDS'])
p('P22','Registered handlers are found, replaced and removed as a map',
 'The registered load and save handlers behave as a map from file extension to handler: registering an extension that is absent adds it, registering one that is present succeeds without disturbing the existing handler, registering without an extension or handler is refused with an error, removing an extension removes exactly that one and keeps the others reachable, and lookups compare extensions case-insensitively. A registered handler for an extension is the one invoked for files of that extension: by ilLoadImage before the built-in loaders, by ilSaveImage when the library has no saver for it.',
 'histories','all sequences of register, remove and use with arbitrary extensions',
 'No test registers handlers.',
 [IL+'il_register.cpp'],[('ilRegisterLoad/ilRegisterSave/ilRemoveLoad/ilRemoveSave/iRegisterLoad/iRegisterSave','il_register.cpp')],(),['ilRegisterLoad','ilRemoveLoad','ilLoad','ilSave'])
p('P23','Cropping keeps exactly the requested window',
 'Cropping an image to a window that lies inside it gives an image of exactly the window\'s size, same format, type, origin and palette, whose every pixel is the pixel of the original at the offset position. With a z offset of 2 or more the window is a box; with a smaller one the crop is two-dimensional, as documented: depth is ignored and every slice is kept. A window that is empty or does not lie inside the image is refused with an error, and whenever cropping fails the image is unchanged; memory outside the image is never accessed.',
 'inputs','all image shapes, channel counts, sample sizes, and all 32-bit window offsets and sizes',
 'Tests crop one 8-bit RGB image once; wide samples, depth and windows reaching outside are not exercised.',
 [IU+'ilu_manip.cpp'],[('iluCrop/iluCrop2D/iluCrop3D','ilu_manip.cpp')],(),['iluCrop','ilGetData'])
p('P24','Enlarging the canvas places the old image intact',
 'Enlarging an image\'s canvas gives an image of exactly the requested size, same format, type, origin and palette, in which the old image appears unchanged at the corner (or centre) selected by the placement setting - corners as seen on the picture, whatever its origin, in the first slices - and every other pixel is the clear colour (index 0 in a colour-index image). A target smaller than the image in any dimension is refused with an error, and whenever enlarging fails the image is unchanged.',
 'inputs configurations','all image shapes, sample types, placements, origins and target sizes',
 'Tests enlarge one 8-bit image with one placement.',
 [IU+'ilu_manip.cpp'],[('iluEnlargeCanvas','ilu_manip.cpp')],(),['iluEnlargeCanvas','ilGetData'])
p('P25','Inversion effects are exact, complete and self-inverse',
 'Without a region, negating an image of integer samples replaces every sample (of a colour-index image: every byte of its palette and no index) by its bitwise complement, and negating again restores it. Inverting alpha of an RGBA, BGRA or luminance-alpha image complements the alpha sample of every pixel (1 - alpha for float and double samples) and leaves all colour samples unchanged; other formats are refused with an error. Swapping colour order exchanges red and blue of every pixel (or palette entry) and relabels the format, and nothing else; if it fails or the image has no colours nothing changes.',
 'inputs','all formats, integer sample types, image sizes and contents',
 'Tests apply each effect once to an 8-bit RGB image without alpha and look at success only.',
 [IU+'ilu_manip.cpp',IL+'il_convert.cpp'],[('iluNegative','ilu_manip.cpp'),('iluInvertAlpha','ilu_manip.cpp'),('iluSwapColours','ilu_manip.cpp')],(),['iluNegative','iluInvertAlpha','iluSwapColours'])
p('P26','Format and type size tables agree with each other',
 'For every pixel format and sample type the library\'s answers about bytes per channel, channels per pixel, format for a channel count, palette entry size and palette base format agree with each other and with the documented values, and unknown enum values are answered with zero. The next-power-of-two helper returns the smallest power of two not below its argument whenever that is representable in 32 bits.',
 'inputs','all 32-bit enum values and sizes',
 'Tests check four enum values.',
 [IL+'il_internal.cpp',IL+'il_utility.cpp',IL+'il_manip.cpp'],[('ilGetBppType/ilGetBpcType/ilGetBppFormat/ilGetTypeBpc/ilGetFormatBpp/ilGetBppPal/ilNextPower2','il_utility.cpp / il_internal.cpp')],(),['ilGetInteger'])
p('P27','Overlaying one image on another blends only the overlap',
 'With coordinates counted from the upper left of both images, whatever their origin, blitting a region of a source image onto the current image changes only the destination pixels covered by the region clipped to both images; with blending off (or no alpha in the source) each covered pixel becomes the source pixel in the destination\'s format, including at negative destination offsets. If it fails, no destination pixel changes. The source image is unchanged, the current binding is the same as before, and neither image is accessed outside its data.',
 'inputs','all image shapes, formats, offsets (positive and negative) and region sizes',
 'Tests blit and overlay once with one offset.',
 [IL+'il_devil.cpp'],[('ilBlit','il_devil.cpp'),('ilOverlayImage','il_devil.cpp')],(),['ilBlit','ilOverlayImage'])
p('P28','File type is decided by extension or content without side effects',
 'The image type for a file name is determined by its last extension alone, compared case-insensitively, and every extension the library documents maps to its own type. Checking whether a stream is of some type never changes the stream position, never reads outside the stream and never changes the current image, whatever the bytes are.',
 'inputs','all file names; all byte streams and lengths',
 'Tests only check well-formed sample files.',
 [IL+'il_io.cpp',IL+'il_internal.cpp',IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_pcx.cpp',IL+'il_sgi.cpp',IL+'il_psd.cpp'],[('ilTypeFromExt/iGetExtension/iCheckExtension','il_io.cpp / il_internal.cpp'),('ilIsValid*L','format files'),('ilDetermineTypeL','il_io.cpp')],(),['ilTypeFromExt','ilDetermineTypeL','ilIsValidL'])
p('P29','Lossless formats return the pixels that were saved',
 'Saving an 8-bit 2D image to memory as RAW, TGA, BMP, SGI or PNM (run-length encoding on or off for TGA and SGI) and loading the result gives an image of the same size whose every pixel has the same colour, for every pixel layout the format keeps (RAW: luminance, RGB, RGBA; TGA: all but luminance-alpha; BMP and PNM: those without alpha; SGI: all). RAW keeps 16- and 32-bit samples and volumes too. The size predicted by ilDetermineSize and the number of bytes the saver reports are the bytes written; saving leaves the image as it was. Loading a RAW or uncompressed Targa whose pixel data ends early fails instead of reporting an image.',
 'inputs configurations','all image sizes and contents, saver settings',
 'Tests round-trip a few fixed pictures; row padding, odd widths, run lengths and bottom-up/top-down settings vary with size and content.',
 [IL+'il_raw.cpp',IL+'il_targa.cpp',IL+'il_bmp.cpp',IL+'il_pnm.cpp',IL+'il_sgi.cpp',IL+'il_size.cpp'],[('iSaveTargaInternal etc.','format files'),('ilDetermineSize','il_size.cpp')],(),['ilSaveL','ilLoadL','ilDetermineSize'])
p('P30','Truncated or hostile files never corrupt memory',
 'Loading any byte sequence, of any length, as any supported image type either succeeds with an image whose layout is consistent with its buffer or fails with an error; it never reads outside the given bytes, never writes outside its own buffers and always terminates.',
 'inputs','all byte sequences up to any length, all loaders',
 'Tests load well-formed files only.',
 [IL+'il_bmp.cpp',IL+'il_targa.cpp',IL+'il_pcx.cpp',IL+'il_sgi.cpp',IL+'il_psd.cpp',IL+'il_dds.cpp'],[('iLoad*Internal','format files')],(),['ilLoadL'])
p('P31','Scaling produces the requested size and stays in range',
 'Scaling an image gives exactly the requested dimensions (zero counting as 1) in the same format, type and origin; nearest-neighbour scaling copies each result pixel whole from the source pixel at the proportional position, and every filter maps a single-colour image to that same colour. Building mipmaps gives a chain in which each level halves each dimension, rounding down but not below 1, until 1x1x1.',
 'inputs configurations','all image sizes, target sizes, formats, sample types and filters',
 'Tests scale one image to one size.',
 [IU+'ilu_scale.cpp',IU+'ilu_scale2d.cpp',IU+'ilu_scale3d.cpp',IU+'ilu_mipmap.cpp'],[('iluScale','ilu_scale.cpp'),('iluBuildMipmaps','ilu_mipmap.cpp')],(),['iluScale','iluBuildMipmaps'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
