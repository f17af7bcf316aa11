// documented constants of il.h, ilu.h and ilut.h (fixed by the ABI)
#pragma once
namespace dv { enum : long long {
  IL_FALSE = 0x0,
  IL_TRUE = 0x1,
  IL_COLOUR_INDEX = 0x1900,
  IL_COLOR_INDEX = 0x1900,
  IL_ALPHA = 0x1906,
  IL_RGB = 0x1907,
  IL_RGBA = 0x1908,
  IL_BGR = 0x80E0,
  IL_BGRA = 0x80E1,
  IL_LUMINANCE = 0x1909,
  IL_LUMINANCE_ALPHA = 0x190A,
  IL_BYTE = 0x1400,
  IL_UNSIGNED_BYTE = 0x1401,
  IL_SHORT = 0x1402,
  IL_UNSIGNED_SHORT = 0x1403,
  IL_INT = 0x1404,
  IL_UNSIGNED_INT = 0x1405,
  IL_FLOAT = 0x1406,
  IL_DOUBLE = 0x140A,
  IL_HALF = 0x140B,
  IL_VENDOR = 0x1F00,
  IL_LOAD_EXT = 0x1F01,
  IL_SAVE_EXT = 0x1F02,
  IL_VERSION_1_8_0 = 0x1,
  IL_VERSION = 0xB4,
  IL_ORIGIN_BIT = 0x1,
  IL_FILE_BIT = 0x2,
  IL_PAL_BIT = 0x4,
  IL_FORMAT_BIT = 0x8,
  IL_TYPE_BIT = 0x10,
  IL_COMPRESS_BIT = 0x20,
  IL_LOADFAIL_BIT = 0x40,
  IL_FORMAT_SPECIFIC_BIT = 0x80,
  IL_ALL_ATTRIB_BITS = 0xFFFFF,
  IL_PAL_NONE = 0x400,
  IL_PAL_RGB24 = 0x401,
  IL_PAL_RGB32 = 0x402,
  IL_PAL_RGBA32 = 0x403,
  IL_PAL_BGR24 = 0x404,
  IL_PAL_BGR32 = 0x405,
  IL_PAL_BGRA32 = 0x406,
  IL_TYPE_UNKNOWN = 0x0,
  IL_BMP = 0x420,
  IL_CUT = 0x421,
  IL_DOOM = 0x422,
  IL_DOOM_FLAT = 0x423,
  IL_ICO = 0x424,
  IL_JPG = 0x425,
  IL_JFIF = 0x425,
  IL_ILBM = 0x426,
  IL_PCD = 0x427,
  IL_PCX = 0x428,
  IL_PIC = 0x429,
  IL_PNG = 0x42A,
  IL_PNM = 0x42B,
  IL_SGI = 0x42C,
  IL_TGA = 0x42D,
  IL_TIF = 0x42E,
  IL_CHEAD = 0x42F,
  IL_RAW = 0x430,
  IL_MDL = 0x431,
  IL_WAL = 0x432,
  IL_LIF = 0x434,
  IL_MNG = 0x435,
  IL_JNG = 0x435,
  IL_GIF = 0x436,
  IL_DDS = 0x437,
  IL_DCX = 0x438,
  IL_PSD = 0x439,
  IL_EXIF = 0x43A,
  IL_PSP = 0x43B,
  IL_PIX = 0x43C,
  IL_PXR = 0x43D,
  IL_XPM = 0x43E,
  IL_HDR = 0x43F,
  IL_ICNS = 0x440,
  IL_JP2 = 0x441,
  IL_EXR = 0x442,
  IL_WDP = 0x443,
  IL_VTF = 0x444,
  IL_WBMP = 0x445,
  IL_SUN = 0x446,
  IL_IFF = 0x447,
  IL_TPL = 0x448,
  IL_FITS = 0x449,
  IL_DICOM = 0x44A,
  IL_IWI = 0x44B,
  IL_BLP = 0x44C,
  IL_FTX = 0x44D,
  IL_ROT = 0x44E,
  IL_TEXTURE = 0x44F,
  IL_DPX = 0x450,
  IL_UTX = 0x451,
  IL_MP3 = 0x452,
  IL_KTX = 0x453,
  IL_SCITEX = 0x454,
  IL_JASC_PAL = 0x475,
  IL_NO_ERROR = 0x0,
  IL_INVALID_ENUM = 0x501,
  IL_OUT_OF_MEMORY = 0x502,
  IL_FORMAT_NOT_SUPPORTED = 0x503,
  IL_INTERNAL_ERROR = 0x504,
  IL_INVALID_VALUE = 0x505,
  IL_ILLEGAL_OPERATION = 0x506,
  IL_ILLEGAL_FILE_VALUE = 0x507,
  IL_INVALID_FILE_HEADER = 0x508,
  IL_INVALID_PARAM = 0x509,
  IL_COULD_NOT_OPEN_FILE = 0x50A,
  IL_INVALID_EXTENSION = 0x50B,
  IL_FILE_ALREADY_EXISTS = 0x50C,
  IL_OUT_FORMAT_SAME = 0x50D,
  IL_STACK_OVERFLOW = 0x50E,
  IL_STACK_UNDERFLOW = 0x50F,
  IL_INVALID_CONVERSION = 0x510,
  IL_BAD_DIMENSIONS = 0x511,
  IL_FILE_READ_ERROR = 0x512,
  IL_FILE_WRITE_ERROR = 0x512,
  IL_LIB_GIF_ERROR = 0x5E1,
  IL_LIB_JPEG_ERROR = 0x5E2,
  IL_LIB_PNG_ERROR = 0x5E3,
  IL_LIB_TIFF_ERROR = 0x5E4,
  IL_LIB_MNG_ERROR = 0x5E5,
  IL_LIB_JP2_ERROR = 0x5E6,
  IL_LIB_EXR_ERROR = 0x5E7,
  IL_UNKNOWN_ERROR = 0x5FF,
  IL_ORIGIN_SET = 0x600,
  IL_ORIGIN_LOWER_LEFT = 0x601,
  IL_ORIGIN_UPPER_LEFT = 0x602,
  IL_ORIGIN_MODE = 0x603,
  IL_FORMAT_SET = 0x610,
  IL_FORMAT_MODE = 0x611,
  IL_TYPE_SET = 0x612,
  IL_TYPE_MODE = 0x613,
  IL_FILE_OVERWRITE = 0x620,
  IL_FILE_MODE = 0x621,
  IL_CONV_PAL = 0x630,
  IL_DEFAULT_ON_FAIL = 0x632,
  IL_USE_KEY_COLOUR = 0x635,
  IL_USE_KEY_COLOR = 0x635,
  IL_BLIT_BLEND = 0x636,
  IL_SAVE_INTERLACED = 0x639,
  IL_INTERLACE_MODE = 0x63A,
  IL_QUANTIZATION_MODE = 0x640,
  IL_WU_QUANT = 0x641,
  IL_NEU_QUANT = 0x642,
  IL_NEU_QUANT_SAMPLE = 0x643,
  IL_MAX_QUANT_INDEXS = 0x644,
  IL_MAX_QUANT_INDICES = 0x644,
  IL_FASTEST = 0x660,
  IL_LESS_MEM = 0x661,
  IL_DONT_CARE = 0x662,
  IL_MEM_SPEED_HINT = 0x665,
  IL_USE_COMPRESSION = 0x666,
  IL_NO_COMPRESSION = 0x667,
  IL_COMPRESSION_HINT = 0x668,
  IL_NVIDIA_COMPRESS = 0x670,
  IL_SQUISH_COMPRESS = 0x671,
  IL_SUB_NEXT = 0x680,
  IL_SUB_MIPMAP = 0x681,
  IL_SUB_LAYER = 0x682,
  IL_COMPRESS_MODE = 0x700,
  IL_COMPRESS_NONE = 0x701,
  IL_COMPRESS_RLE = 0x702,
  IL_COMPRESS_LZO = 0x703,
  IL_COMPRESS_ZLIB = 0x704,
  IL_TGA_CREATE_STAMP = 0x710,
  IL_JPG_QUALITY = 0x711,
  IL_PNG_INTERLACE = 0x712,
  IL_TGA_RLE = 0x713,
  IL_BMP_RLE = 0x714,
  IL_SGI_RLE = 0x715,
  IL_TGA_ID_STRING = 0x717,
  IL_TGA_AUTHNAME_STRING = 0x718,
  IL_TGA_AUTHCOMMENT_STRING = 0x719,
  IL_PNG_AUTHNAME_STRING = 0x71A,
  IL_PNG_TITLE_STRING = 0x71B,
  IL_PNG_DESCRIPTION_STRING = 0x71C,
  IL_TIF_DESCRIPTION_STRING = 0x71D,
  IL_TIF_HOSTCOMPUTER_STRING = 0x71E,
  IL_TIF_DOCUMENTNAME_STRING = 0x71F,
  IL_TIF_AUTHNAME_STRING = 0x720,
  IL_JPG_SAVE_FORMAT = 0x721,
  IL_CHEAD_HEADER_STRING = 0x722,
  IL_PCD_PICNUM = 0x723,
  IL_PNG_ALPHA_INDEX = 0x724,
  IL_JPG_PROGRESSIVE = 0x725,
  IL_VTF_COMP = 0x726,
  IL_DXTC_FORMAT = 0x705,
  IL_DXT1 = 0x706,
  IL_DXT2 = 0x707,
  IL_DXT3 = 0x708,
  IL_DXT4 = 0x709,
  IL_DXT5 = 0x70A,
  IL_DXT_NO_COMP = 0x70B,
  IL_KEEP_DXTC_DATA = 0x70C,
  IL_DXTC_DATA_FORMAT = 0x70D,
  IL_3DC = 0x70E,
  IL_RXGB = 0x70F,
  IL_ATI1N = 0x710,
  IL_DXT1A = 0x711,
  IL_CUBEMAP_POSITIVEX = 0x400,
  IL_CUBEMAP_NEGATIVEX = 0x800,
  IL_CUBEMAP_POSITIVEY = 0x1000,
  IL_CUBEMAP_NEGATIVEY = 0x2000,
  IL_CUBEMAP_POSITIVEZ = 0x4000,
  IL_CUBEMAP_NEGATIVEZ = 0x8000,
  IL_SPHEREMAP = 0x10000,
  IL_VERSION_NUM = 0xDE2,
  IL_IMAGE_WIDTH = 0xDE4,
  IL_IMAGE_HEIGHT = 0xDE5,
  IL_IMAGE_DEPTH = 0xDE6,
  IL_IMAGE_SIZE_OF_DATA = 0xDE7,
  IL_IMAGE_BPP = 0xDE8,
  IL_IMAGE_BYTES_PER_PIXEL = 0xDE8,
  IL_IMAGE_BITS_PER_PIXEL = 0xDE9,
  IL_IMAGE_FORMAT = 0xDEA,
  IL_IMAGE_TYPE = 0xDEB,
  IL_PALETTE_TYPE = 0xDEC,
  IL_PALETTE_SIZE = 0xDED,
  IL_PALETTE_BPP = 0xDEE,
  IL_PALETTE_NUM_COLS = 0xDEF,
  IL_PALETTE_BASE_TYPE = 0xDF0,
  IL_NUM_FACES = 0xDE1,
  IL_NUM_IMAGES = 0xDF1,
  IL_NUM_MIPMAPS = 0xDF2,
  IL_NUM_LAYERS = 0xDF3,
  IL_ACTIVE_IMAGE = 0xDF4,
  IL_ACTIVE_MIPMAP = 0xDF5,
  IL_ACTIVE_LAYER = 0xDF6,
  IL_ACTIVE_FACE = 0xE00,
  IL_CUR_IMAGE = 0xDF7,
  IL_IMAGE_DURATION = 0xDF8,
  IL_IMAGE_PLANESIZE = 0xDF9,
  IL_IMAGE_BPC = 0xDFA,
  IL_IMAGE_OFFX = 0xDFB,
  IL_IMAGE_OFFY = 0xDFC,
  IL_IMAGE_CUBEFLAGS = 0xDFD,
  IL_IMAGE_ORIGIN = 0xDFE,
  IL_IMAGE_CHANNELS = 0xDFF,
  IL_SEEK_SET = 0x0,
  IL_SEEK_CUR = 0x1,
  IL_SEEK_END = 0x2,
  ILU_VERSION_1_8_0 = 0x1,
  ILU_VERSION = 0xB4,
  ILU_FILTER = 0x2600,
  ILU_NEAREST = 0x2601,
  ILU_LINEAR = 0x2602,
  ILU_BILINEAR = 0x2603,
  ILU_SCALE_BOX = 0x2604,
  ILU_SCALE_TRIANGLE = 0x2605,
  ILU_SCALE_BELL = 0x2606,
  ILU_SCALE_BSPLINE = 0x2607,
  ILU_SCALE_LANCZOS3 = 0x2608,
  ILU_SCALE_MITCHELL = 0x2609,
  ILU_INVALID_ENUM = 0x501,
  ILU_OUT_OF_MEMORY = 0x502,
  ILU_INTERNAL_ERROR = 0x504,
  ILU_INVALID_VALUE = 0x505,
  ILU_ILLEGAL_OPERATION = 0x506,
  ILU_INVALID_PARAM = 0x509,
  ILU_PLACEMENT = 0x700,
  ILU_LOWER_LEFT = 0x701,
  ILU_LOWER_RIGHT = 0x702,
  ILU_UPPER_LEFT = 0x703,
  ILU_UPPER_RIGHT = 0x704,
  ILU_CENTER = 0x705,
  ILU_CONVOLUTION_MATRIX = 0x710,
  ILU_ENGLISH = 0x800,
  ILU_ARABIC = 0x801,
  ILU_DUTCH = 0x802,
  ILU_JAPANESE = 0x803,
  ILU_SPANISH = 0x804,
  ILU_GERMAN = 0x805,
  ILU_FRENCH = 0x806,
  ILU_ITALIAN = 0x807,
  ILU_FILTER_BLUR = 0x803,
  ILU_FILTER_GAUSSIAN_3x3 = 0x804,
  ILU_FILTER_GAUSSIAN_5X5 = 0x805,
  ILU_FILTER_EMBOSS1 = 0x807,
  ILU_FILTER_EMBOSS2 = 0x808,
  ILU_FILTER_LAPLACIAN1 = 0x80A,
  ILU_FILTER_LAPLACIAN2 = 0x80B,
  ILU_FILTER_LAPLACIAN3 = 0x80C,
  ILU_FILTER_LAPLACIAN4 = 0x80D,
  ILU_FILTER_SHARPEN1 = 0x80E,
  ILU_FILTER_SHARPEN2 = 0x80F,
  ILU_FILTER_SHARPEN3 = 0x810,
  ILUT_VERSION_1_8_0 = 0x1,
  ILUT_VERSION = 0xB4,
  ILUT_OPENGL_BIT = 0x1,
  ILUT_D3D_BIT = 0x2,
  ILUT_ALL_ATTRIB_BITS = 0xFFFFF,
  ILUT_INVALID_ENUM = 0x501,
  ILUT_OUT_OF_MEMORY = 0x502,
  ILUT_INVALID_VALUE = 0x505,
  ILUT_ILLEGAL_OPERATION = 0x506,
  ILUT_INVALID_PARAM = 0x509,
  ILUT_COULD_NOT_OPEN_FILE = 0x50A,
  ILUT_STACK_OVERFLOW = 0x50E,
  ILUT_STACK_UNDERFLOW = 0x50F,
  ILUT_BAD_DIMENSIONS = 0x511,
  ILUT_NOT_SUPPORTED = 0x550,
  ILUT_PALETTE_MODE = 0x600,
  ILUT_OPENGL_CONV = 0x610,
  ILUT_D3D_MIPLEVELS = 0x620,
  ILUT_MAXTEX_WIDTH = 0x630,
  ILUT_MAXTEX_HEIGHT = 0x631,
  ILUT_MAXTEX_DEPTH = 0x632,
  ILUT_GL_USE_S3TC = 0x634,
  ILUT_D3D_USE_DXTC = 0x634,
  ILUT_GL_GEN_S3TC = 0x635,
  ILUT_D3D_GEN_DXTC = 0x635,
  ILUT_S3TC_FORMAT = 0x705,
  ILUT_DXTC_FORMAT = 0x705,
  ILUT_D3D_POOL = 0x706,
  ILUT_D3D_ALPHA_KEY_COLOR = 0x707,
  ILUT_D3D_ALPHA_KEY_COLOUR = 0x707,
  ILUT_FORCE_INTEGER_FORMAT = 0x636,
  ILUT_GL_AUTODETECT_TEXTURE_TARGET = 0x807,
  ILUT_OPENGL = 0x0,
  ILUT_ALLEGRO = 0x1,
  ILUT_WIN32 = 0x2,
  ILUT_DIRECT3D8 = 0x3,
  ILUT_DIRECT3D9 = 0x4,
  ILUT_X11 = 0x5,
  ILUT_DIRECT3D10 = 0x6,
}; }
