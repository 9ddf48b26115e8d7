static const u32 ref_zero[][2]={{0x0300,0x036F},{0x0483,0x0486},{0x0488,0x0489},{0x0591,0x05BD},{0x05BF,0x05BF},{0x05C1,0x05C2},{0x05C4,0x05C5},{0x05C7,0x05C7},{0x0600,0x0603},{0x0610,0x0615},{0x064B,0x065E},{0x0670,0x0670},{0x06D6,0x06E4},{0x06E7,0x06E8},{0x06EA,0x06ED},{0x070F,0x070F},{0x0711,0x0711},{0x0730,0x074A},{0x07A6,0x07B0},{0x07EB,0x07F3},{0x0901,0x0902},{0x093C,0x093C},{0x0941,0x0948},{0x094D,0x094D},{0x0951,0x0954},{0x0962,0x0963},{0x0981,0x0981},{0x09BC,0x09BC},{0x09C1,0x09C4},{0x09CD,0x09CD},{0x09E2,0x09E3},{0x0A01,0x0A02},{0x0A3C,0x0A3C},{0x0A41,0x0A42},{0x0A47,0x0A48},{0x0A4B,0x0A4D},{0x0A70,0x0A71},{0x0A81,0x0A82},{0x0ABC,0x0ABC},{0x0AC1,0x0AC5},{0x0AC7,0x0AC8},{0x0ACD,0x0ACD},{0x0AE2,0x0AE3},{0x0B01,0x0B01},{0x0B3C,0x0B3C},{0x0B3F,0x0B3F},{0x0B41,0x0B43},{0x0B4D,0x0B4D},{0x0B56,0x0B56},{0x0B82,0x0B82},{0x0BC0,0x0BC0},{0x0BCD,0x0BCD},{0x0C3E,0x0C40},{0x0C46,0x0C48},{0x0C4A,0x0C4D},{0x0C55,0x0C56},{0x0CBC,0x0CBC},{0x0CBF,0x0CBF},{0x0CC6,0x0CC6},{0x0CCC,0x0CCD},{0x0CE2,0x0CE3},{0x0D41,0x0D43},{0x0D4D,0x0D4D},{0x0DCA,0x0DCA},{0x0DD2,0x0DD4},{0x0DD6,0x0DD6},{0x0E31,0x0E31},{0x0E34,0x0E3A},{0x0E47,0x0E4E},{0x0EB1,0x0EB1},{0x0EB4,0x0EB9},{0x0EBB,0x0EBC},{0x0EC8,0x0ECD},{0x0F18,0x0F19},{0x0F35,0x0F35},{0x0F37,0x0F37},{0x0F39,0x0F39},{0x0F71,0x0F7E},{0x0F80,0x0F84},{0x0F86,0x0F87},{0x0F90,0x0F97},{0x0F99,0x0FBC},{0x0FC6,0x0FC6},{0x102D,0x1030},{0x1032,0x1032},{0x1036,0x1037},{0x1039,0x1039},{0x1058,0x1059},{0x1160,0x11FF},{0x135F,0x135F},{0x1712,0x1714},{0x1732,0x1734},{0x1752,0x1753},{0x1772,0x1773},{0x17B4,0x17B5},{0x17B7,0x17BD},{0x17C6,0x17C6},{0x17C9,0x17D3},{0x17DD,0x17DD},{0x180B,0x180D},{0x18A9,0x18A9},{0x1920,0x1922},{0x1927,0x1928},{0x1932,0x1932},{0x1939,0x193B},{0x1A17,0x1A18},{0x1B00,0x1B03},{0x1B34,0x1B34},{0x1B36,0x1B3A},{0x1B3C,0x1B3C},{0x1B42,0x1B42},{0x1B6B,0x1B73},{0x1DC0,0x1DCA},{0x1DFE,0x1DFF},{0x200B,0x200F},{0x202A,0x202E},{0x2060,0x2063},{0x206A,0x206F},{0x20D0,0x20EF},{0x302A,0x302F},{0x3099,0x309A},{0xA806,0xA806},{0xA80B,0xA80B},{0xA825,0xA826},{0xFB1E,0xFB1E},{0xFE00,0xFE0F},{0xFE20,0xFE23},{0xFEFF,0xFEFF},{0xFFF9,0xFFFB},{0x10A01,0x10A03},{0x10A05,0x10A06},{0x10A0C,0x10A0F},{0x10A38,0x10A3A},{0x10A3F,0x10A3F},{0x1D167,0x1D169},{0x1D173,0x1D182},{0x1D185,0x1D18B},{0x1D1AA,0x1D1AD},{0x1D242,0x1D244},{0xE0001,0xE0001},{0xE0020,0xE007F},{0xE0100,0xE01EF}};
static const unsigned short ref_vt100_tab[128]={0x0000,0x0001,0x0002,0x0003,0x0004,0x0005,0x0006,0x0007,0x0008,0x0009,0x000a,0x000b,0x000c,0x000d,0x000e,0x000f,0x0010,0x0011,0x0012,0x0013,0x0014,0x0015,0x0016,0x0017,0x0018,0x0019,0x001a,0x001b,0x001c,0x001d,0x001e,0x001f,0x0020,0x0021,0x0022,0x0023,0x0024,0x0025,0x0026,0x0027,0x0028,0x0029,0x002a,0x2192,0x2190,0x2191,0x2193,0x002f,0x2588,0x0031,0x0032,0x0033,0x0034,0x0035,0x0036,0x0037,0x0038,0x0039,0x003a,0x003b,0x003c,0x003d,0x003e,0x003f,0x0040,0x0041,0x0042,0x0043,0x0044,0x0045,0x0046,0x0047,0x0048,0x0049,0x004a,0x004b,0x004c,0x004d,0x004e,0x004f,0x0050,0x0051,0x0052,0x0053,0x0054,0x0055,0x0056,0x0057,0x0058,0x0059,0x005a,0x005b,0x005c,0x005d,0x005e,0x00a0,0x2666,0x2592,0x2409,0x240c,0x240d,0x240a,0x00b0,0x00b1,0x2424,0x240b,0x2518,0x2510,0x250c,0x2514,0x253c,0x23ba,0x23bb,0x2500,0x23bc,0x23bd,0x251c,0x2524,0x2534,0x252c,0x2502,0x2264,0x2265,0x03c0,0x2260,0x00a3,0x00b7,0x0020,};
static const unsigned short ref_cp437_tab[256]={0x0000,0x263a,0x263b,0x2665,0x2666,0x2663,0x2660,0x2022,0x25d8,0x25cb,0x25d9,0x2642,0x2640,0x266a,0x266b,0x263c,0x25b6,0x25c0,0x2195,0x203c,0x00b6,0x00a7,0x25ac,0x21a8,0x2191,0x2193,0x2192,0x2190,0x221f,0x2194,0x25b2,0x25bc,0x0020,0x0021,0x0022,0x0023,0x0024,0x0025,0x0026,0x0027,0x0028,0x0029,0x002a,0x002b,0x002c,0x002d,0x002e,0x002f,0x0030,0x0031,0x0032,0x0033,0x0034,0x0035,0x0036,0x0037,0x0038,0x0039,0x003a,0x003b,0x003c,0x003d,0x003e,0x003f,0x0040,0x0041,0x0042,0x0043,0x0044,0x0045,0x0046,0x0047,0x0048,0x0049,0x004a,0x004b,0x004c,0x004d,0x004e,0x004f,0x0050,0x0051,0x0052,0x0053,0x0054,0x0055,0x0056,0x0057,0x0058,0x0059,0x005a,0x005b,0x005c,0x005d,0x005e,0x005f,0x0060,0x0061,0x0062,0x0063,0x0064,0x0065,0x0066,0x0067,0x0068,0x0069,0x006a,0x006b,0x006c,0x006d,0x006e,0x006f,0x0070,0x0071,0x0072,0x0073,0x0074,0x0075,0x0076,0x0077,0x0078,0x0079,0x007a,0x007b,0x007c,0x007d,0x007e,0x2302,0x00c7,0x00fc,0x00e9,0x00e2,0x00e4,0x00e0,0x00e5,0x00e7,0x00ea,0x00eb,0x00e8,0x00ef,0x00ee,0x00ec,0x00c4,0x00c5,0x00c9,0x00e6,0x00c6,0x00f4,0x00f6,0x00f2,0x00fb,0x00f9,0x00ff,0x00d6,0x00dc,0x00a2,0x00a3,0x00a5,0x20a7,0x0192,0x00e1,0x00ed,0x00f3,0x00fa,0x00f1,0x00d1,0x00aa,0x00ba,0x00bf,0x2310,0x00ac,0x00bd,0x00bc,0x00a1,0x00ab,0x00bb,0x2591,0x2592,0x2593,0x2502,0x2524,0x2561,0x2562,0x2556,0x2555,0x2563,0x2551,0x2557,0x255d,0x255c,0x255b,0x2510,0x2514,0x2534,0x252c,0x251c,0x2500,0x253c,0x255e,0x255f,0x255a,0x2554,0x2569,0x2566,0x2560,0x2550,0x256c,0x2567,0x2568,0x2564,0x2565,0x2559,0x2558,0x2552,0x2553,0x256b,0x256a,0x2518,0x250c,0x2588,0x2584,0x258c,0x2590,0x2580,0x03b1,0x00df,0x0393,0x03c0,0x03a3,0x03c3,0x00b5,0x03c4,0x03a6,0x0398,0x03a9,0x03b4,0x221e,0x03c6,0x03b5,0x2229,0x2261,0x00b1,0x2265,0x2264,0x2320,0x2321,0x00f7,0x2248,0x00b0,0x2219,0x00b7,0x221a,0x207f,0x00b2,0x25a0,0x00a0,};
