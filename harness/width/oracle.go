// Code generated by gen.pl from the Unicode 15.0 data of perl. DO NOT EDIT.

package width

type row struct {
	lo, hi    rune
	mask      int // bit w is set when width w is right
	amb, pict bool
}

var oracle = []row{
	{0x0000, 0x001F, 1, false, false},
	{0x0020, 0x007E, 2, false, false},
	{0x007F, 0x009F, 1, false, false},
	{0x00A0, 0x00A0, 2, false, false},
	{0x00A1, 0x00A1, 2, true, false},
	{0x00A2, 0x00A3, 2, false, false},
	{0x00A4, 0x00A4, 2, true, false},
	{0x00A5, 0x00A6, 2, false, false},
	{0x00A7, 0x00A8, 2, true, false},
	{0x00A9, 0x00A9, 2, false, false},
	{0x00AA, 0x00AA, 2, true, false},
	{0x00AB, 0x00AC, 2, false, false},
	{0x00AD, 0x00AD, 3, true, false},
	{0x00AE, 0x00AE, 2, true, false},
	{0x00AF, 0x00AF, 2, false, false},
	{0x00B0, 0x00B4, 2, true, false},
	{0x00B5, 0x00B5, 2, false, false},
	{0x00B6, 0x00BA, 2, true, false},
	{0x00BB, 0x00BB, 2, false, false},
	{0x00BC, 0x00BF, 2, true, false},
	{0x00C0, 0x00C5, 2, false, false},
	{0x00C6, 0x00C6, 2, true, false},
	{0x00C7, 0x00CF, 2, false, false},
	{0x00D0, 0x00D0, 2, true, false},
	{0x00D1, 0x00D6, 2, false, false},
	{0x00D7, 0x00D8, 2, true, false},
	{0x00D9, 0x00DD, 2, false, false},
	{0x00DE, 0x00E1, 2, true, false},
	{0x00E2, 0x00E5, 2, false, false},
	{0x00E6, 0x00E6, 2, true, false},
	{0x00E7, 0x00E7, 2, false, false},
	{0x00E8, 0x00EA, 2, true, false},
	{0x00EB, 0x00EB, 2, false, false},
	{0x00EC, 0x00ED, 2, true, false},
	{0x00EE, 0x00EF, 2, false, false},
	{0x00F0, 0x00F0, 2, true, false},
	{0x00F1, 0x00F1, 2, false, false},
	{0x00F2, 0x00F3, 2, true, false},
	{0x00F4, 0x00F6, 2, false, false},
	{0x00F7, 0x00FA, 2, true, false},
	{0x00FB, 0x00FB, 2, false, false},
	{0x00FC, 0x00FC, 2, true, false},
	{0x00FD, 0x00FD, 2, false, false},
	{0x00FE, 0x00FE, 2, true, false},
	{0x00FF, 0x0100, 2, false, false},
	{0x0101, 0x0101, 2, true, false},
	{0x0102, 0x0110, 2, false, false},
	{0x0111, 0x0111, 2, true, false},
	{0x0112, 0x0112, 2, false, false},
	{0x0113, 0x0113, 2, true, false},
	{0x0114, 0x011A, 2, false, false},
	{0x011B, 0x011B, 2, true, false},
	{0x011C, 0x0125, 2, false, false},
	{0x0126, 0x0127, 2, true, false},
	{0x0128, 0x012A, 2, false, false},
	{0x012B, 0x012B, 2, true, false},
	{0x012C, 0x0130, 2, false, false},
	{0x0131, 0x0133, 2, true, false},
	{0x0134, 0x0137, 2, false, false},
	{0x0138, 0x0138, 2, true, false},
	{0x0139, 0x013E, 2, false, false},
	{0x013F, 0x0142, 2, true, false},
	{0x0143, 0x0143, 2, false, false},
	{0x0144, 0x0144, 2, true, false},
	{0x0145, 0x0147, 2, false, false},
	{0x0148, 0x014B, 2, true, false},
	{0x014C, 0x014C, 2, false, false},
	{0x014D, 0x014D, 2, true, false},
	{0x014E, 0x0151, 2, false, false},
	{0x0152, 0x0153, 2, true, false},
	{0x0154, 0x0165, 2, false, false},
	{0x0166, 0x0167, 2, true, false},
	{0x0168, 0x016A, 2, false, false},
	{0x016B, 0x016B, 2, true, false},
	{0x016C, 0x01CD, 2, false, false},
	{0x01CE, 0x01CE, 2, true, false},
	{0x01CF, 0x01CF, 2, false, false},
	{0x01D0, 0x01D0, 2, true, false},
	{0x01D1, 0x01D1, 2, false, false},
	{0x01D2, 0x01D2, 2, true, false},
	{0x01D3, 0x01D3, 2, false, false},
	{0x01D4, 0x01D4, 2, true, false},
	{0x01D5, 0x01D5, 2, false, false},
	{0x01D6, 0x01D6, 2, true, false},
	{0x01D7, 0x01D7, 2, false, false},
	{0x01D8, 0x01D8, 2, true, false},
	{0x01D9, 0x01D9, 2, false, false},
	{0x01DA, 0x01DA, 2, true, false},
	{0x01DB, 0x01DB, 2, false, false},
	{0x01DC, 0x01DC, 2, true, false},
	{0x01DD, 0x0250, 2, false, false},
	{0x0251, 0x0251, 2, true, false},
	{0x0252, 0x0260, 2, false, false},
	{0x0261, 0x0261, 2, true, false},
	{0x0262, 0x02C3, 2, false, false},
	{0x02C4, 0x02C4, 2, true, false},
	{0x02C5, 0x02C6, 2, false, false},
	{0x02C7, 0x02C7, 2, true, false},
	{0x02C8, 0x02C8, 2, false, false},
	{0x02C9, 0x02CB, 2, true, false},
	{0x02CC, 0x02CC, 2, false, false},
	{0x02CD, 0x02CD, 2, true, false},
	{0x02CE, 0x02CF, 2, false, false},
	{0x02D0, 0x02D0, 2, true, false},
	{0x02D1, 0x02D7, 2, false, false},
	{0x02D8, 0x02DB, 2, true, false},
	{0x02DC, 0x02DC, 2, false, false},
	{0x02DD, 0x02DD, 2, true, false},
	{0x02DE, 0x02DE, 2, false, false},
	{0x02DF, 0x02DF, 2, true, false},
	{0x02E0, 0x02FF, 2, false, false},
	{0x0300, 0x036F, 1, true, false},
	{0x0370, 0x0377, 2, false, false},
	{0x0378, 0x0379, 3, false, false},
	{0x037A, 0x037F, 2, false, false},
	{0x0380, 0x0383, 3, false, false},
	{0x0384, 0x038A, 2, false, false},
	{0x038B, 0x038B, 3, false, false},
	{0x038C, 0x038C, 2, false, false},
	{0x038D, 0x038D, 3, false, false},
	{0x038E, 0x0390, 2, false, false},
	{0x0391, 0x03A1, 2, true, false},
	{0x03A2, 0x03A2, 3, false, false},
	{0x03A3, 0x03A9, 2, true, false},
	{0x03AA, 0x03B0, 2, false, false},
	{0x03B1, 0x03C1, 2, true, false},
	{0x03C2, 0x03C2, 2, false, false},
	{0x03C3, 0x03C9, 2, true, false},
	{0x03CA, 0x0400, 2, false, false},
	{0x0401, 0x0401, 2, true, false},
	{0x0402, 0x040F, 2, false, false},
	{0x0410, 0x044F, 2, true, false},
	{0x0450, 0x0450, 2, false, false},
	{0x0451, 0x0451, 2, true, false},
	{0x0452, 0x0482, 2, false, false},
	{0x0483, 0x0489, 1, false, false},
	{0x048A, 0x052F, 2, false, false},
	{0x0530, 0x0530, 3, false, false},
	{0x0531, 0x0556, 2, false, false},
	{0x0557, 0x0558, 3, false, false},
	{0x0559, 0x058A, 2, false, false},
	{0x058B, 0x058C, 3, false, false},
	{0x058D, 0x058F, 2, false, false},
	{0x0590, 0x05BD, 3, false, false},
	{0x05BE, 0x05BE, 2, false, false},
	{0x05BF, 0x05BF, 3, false, false},
	{0x05C0, 0x05C0, 2, false, false},
	{0x05C1, 0x05C2, 3, false, false},
	{0x05C3, 0x05C3, 2, false, false},
	{0x05C4, 0x05C5, 3, false, false},
	{0x05C6, 0x05C6, 2, false, false},
	{0x05C7, 0x05CF, 3, false, false},
	{0x05D0, 0x05EA, 2, false, false},
	{0x05EB, 0x05EE, 3, false, false},
	{0x05EF, 0x05F4, 2, false, false},
	{0x05F5, 0x0605, 3, false, false},
	{0x0606, 0x060F, 2, false, false},
	{0x0610, 0x061A, 3, false, false},
	{0x061B, 0x061B, 2, false, false},
	{0x061C, 0x061C, 3, false, false},
	{0x061D, 0x064A, 2, false, false},
	{0x064B, 0x065F, 3, false, false},
	{0x0660, 0x066F, 2, false, false},
	{0x0670, 0x0670, 3, false, false},
	{0x0671, 0x06D5, 2, false, false},
	{0x06D6, 0x06DD, 3, false, false},
	{0x06DE, 0x06DE, 2, false, false},
	{0x06DF, 0x06E4, 3, false, false},
	{0x06E5, 0x06E6, 2, false, false},
	{0x06E7, 0x06E8, 3, false, false},
	{0x06E9, 0x06E9, 2, false, false},
	{0x06EA, 0x06ED, 3, false, false},
	{0x06EE, 0x070D, 2, false, false},
	{0x070E, 0x070F, 3, false, false},
	{0x0710, 0x0710, 2, false, false},
	{0x0711, 0x0711, 3, false, false},
	{0x0712, 0x072F, 2, false, false},
	{0x0730, 0x074C, 3, false, false},
	{0x074D, 0x07A5, 2, false, false},
	{0x07A6, 0x07B0, 3, false, false},
	{0x07B1, 0x07B1, 2, false, false},
	{0x07B2, 0x07BF, 3, false, false},
	{0x07C0, 0x07EA, 2, false, false},
	{0x07EB, 0x07F3, 1, false, false},
	{0x07F4, 0x07FA, 2, false, false},
	{0x07FB, 0x07FD, 3, false, false},
	{0x07FE, 0x0815, 2, false, false},
	{0x0816, 0x0819, 3, false, false},
	{0x081A, 0x081A, 2, false, false},
	{0x081B, 0x0823, 3, false, false},
	{0x0824, 0x0824, 2, false, false},
	{0x0825, 0x0827, 3, false, false},
	{0x0828, 0x0828, 2, false, false},
	{0x0829, 0x082F, 3, false, false},
	{0x0830, 0x083E, 2, false, false},
	{0x083F, 0x083F, 3, false, false},
	{0x0840, 0x0858, 2, false, false},
	{0x0859, 0x085D, 3, false, false},
	{0x085E, 0x085E, 2, false, false},
	{0x085F, 0x085F, 3, false, false},
	{0x0860, 0x086A, 2, false, false},
	{0x086B, 0x086F, 3, false, false},
	{0x0870, 0x088E, 2, false, false},
	{0x088F, 0x089F, 3, false, false},
	{0x08A0, 0x08C9, 2, false, false},
	{0x08CA, 0x0903, 3, false, false},
	{0x0904, 0x0939, 2, false, false},
	{0x093A, 0x093C, 3, false, false},
	{0x093D, 0x093D, 2, false, false},
	{0x093E, 0x094F, 3, false, false},
	{0x0950, 0x0950, 2, false, false},
	{0x0951, 0x0957, 3, false, false},
	{0x0958, 0x0961, 2, false, false},
	{0x0962, 0x0963, 3, false, false},
	{0x0964, 0x0980, 2, false, false},
	{0x0981, 0x0984, 3, false, false},
	{0x0985, 0x098C, 2, false, false},
	{0x098D, 0x098E, 3, false, false},
	{0x098F, 0x0990, 2, false, false},
	{0x0991, 0x0992, 3, false, false},
	{0x0993, 0x09A8, 2, false, false},
	{0x09A9, 0x09A9, 3, false, false},
	{0x09AA, 0x09B0, 2, false, false},
	{0x09B1, 0x09B1, 3, false, false},
	{0x09B2, 0x09B2, 2, false, false},
	{0x09B3, 0x09B5, 3, false, false},
	{0x09B6, 0x09B9, 2, false, false},
	{0x09BA, 0x09BC, 3, false, false},
	{0x09BD, 0x09BD, 2, false, false},
	{0x09BE, 0x09CD, 3, false, false},
	{0x09CE, 0x09CE, 2, false, false},
	{0x09CF, 0x09DB, 3, false, false},
	{0x09DC, 0x09DD, 2, false, false},
	{0x09DE, 0x09DE, 3, false, false},
	{0x09DF, 0x09E1, 2, false, false},
	{0x09E2, 0x09E5, 3, false, false},
	{0x09E6, 0x09FD, 2, false, false},
	{0x09FE, 0x0A04, 3, false, false},
	{0x0A05, 0x0A0A, 2, false, false},
	{0x0A0B, 0x0A0E, 3, false, false},
	{0x0A0F, 0x0A10, 2, false, false},
	{0x0A11, 0x0A12, 3, false, false},
	{0x0A13, 0x0A28, 2, false, false},
	{0x0A29, 0x0A29, 3, false, false},
	{0x0A2A, 0x0A30, 2, false, false},
	{0x0A31, 0x0A31, 3, false, false},
	{0x0A32, 0x0A33, 2, false, false},
	{0x0A34, 0x0A34, 3, false, false},
	{0x0A35, 0x0A36, 2, false, false},
	{0x0A37, 0x0A37, 3, false, false},
	{0x0A38, 0x0A39, 2, false, false},
	{0x0A3A, 0x0A58, 3, false, false},
	{0x0A59, 0x0A5C, 2, false, false},
	{0x0A5D, 0x0A5D, 3, false, false},
	{0x0A5E, 0x0A5E, 2, false, false},
	{0x0A5F, 0x0A65, 3, false, false},
	{0x0A66, 0x0A6F, 2, false, false},
	{0x0A70, 0x0A71, 3, false, false},
	{0x0A72, 0x0A74, 2, false, false},
	{0x0A75, 0x0A75, 3, false, false},
	{0x0A76, 0x0A76, 2, false, false},
	{0x0A77, 0x0A84, 3, false, false},
	{0x0A85, 0x0A8D, 2, false, false},
	{0x0A8E, 0x0A8E, 3, false, false},
	{0x0A8F, 0x0A91, 2, false, false},
	{0x0A92, 0x0A92, 3, false, false},
	{0x0A93, 0x0AA8, 2, false, false},
	{0x0AA9, 0x0AA9, 3, false, false},
	{0x0AAA, 0x0AB0, 2, false, false},
	{0x0AB1, 0x0AB1, 3, false, false},
	{0x0AB2, 0x0AB3, 2, false, false},
	{0x0AB4, 0x0AB4, 3, false, false},
	{0x0AB5, 0x0AB9, 2, false, false},
	{0x0ABA, 0x0ABC, 3, false, false},
	{0x0ABD, 0x0ABD, 2, false, false},
	{0x0ABE, 0x0ACF, 3, false, false},
	{0x0AD0, 0x0AD0, 2, false, false},
	{0x0AD1, 0x0ADF, 3, false, false},
	{0x0AE0, 0x0AE1, 2, false, false},
	{0x0AE2, 0x0AE5, 3, false, false},
	{0x0AE6, 0x0AF1, 2, false, false},
	{0x0AF2, 0x0AF8, 3, false, false},
	{0x0AF9, 0x0AF9, 2, false, false},
	{0x0AFA, 0x0B04, 3, false, false},
	{0x0B05, 0x0B0C, 2, false, false},
	{0x0B0D, 0x0B0E, 3, false, false},
	{0x0B0F, 0x0B10, 2, false, false},
	{0x0B11, 0x0B12, 3, false, false},
	{0x0B13, 0x0B28, 2, false, false},
	{0x0B29, 0x0B29, 3, false, false},
	{0x0B2A, 0x0B30, 2, false, false},
	{0x0B31, 0x0B31, 3, false, false},
	{0x0B32, 0x0B33, 2, false, false},
	{0x0B34, 0x0B34, 3, false, false},
	{0x0B35, 0x0B39, 2, false, false},
	{0x0B3A, 0x0B3C, 3, false, false},
	{0x0B3D, 0x0B3D, 2, false, false},
	{0x0B3E, 0x0B5B, 3, false, false},
	{0x0B5C, 0x0B5D, 2, false, false},
	{0x0B5E, 0x0B5E, 3, false, false},
	{0x0B5F, 0x0B61, 2, false, false},
	{0x0B62, 0x0B65, 3, false, false},
	{0x0B66, 0x0B77, 2, false, false},
	{0x0B78, 0x0B82, 3, false, false},
	{0x0B83, 0x0B83, 2, false, false},
	{0x0B84, 0x0B84, 3, false, false},
	{0x0B85, 0x0B8A, 2, false, false},
	{0x0B8B, 0x0B8D, 3, false, false},
	{0x0B8E, 0x0B90, 2, false, false},
	{0x0B91, 0x0B91, 3, false, false},
	{0x0B92, 0x0B95, 2, false, false},
	{0x0B96, 0x0B98, 3, false, false},
	{0x0B99, 0x0B9A, 2, false, false},
	{0x0B9B, 0x0B9B, 3, false, false},
	{0x0B9C, 0x0B9C, 2, false, false},
	{0x0B9D, 0x0B9D, 3, false, false},
	{0x0B9E, 0x0B9F, 2, false, false},
	{0x0BA0, 0x0BA2, 3, false, false},
	{0x0BA3, 0x0BA4, 2, false, false},
	{0x0BA5, 0x0BA7, 3, false, false},
	{0x0BA8, 0x0BAA, 2, false, false},
	{0x0BAB, 0x0BAD, 3, false, false},
	{0x0BAE, 0x0BB9, 2, false, false},
	{0x0BBA, 0x0BCF, 3, false, false},
	{0x0BD0, 0x0BD0, 2, false, false},
	{0x0BD1, 0x0BE5, 3, false, false},
	{0x0BE6, 0x0BFA, 2, false, false},
	{0x0BFB, 0x0BFF, 3, false, false},
	{0x0C00, 0x0C00, 1, false, false},
	{0x0C01, 0x0C03, 3, false, false},
	{0x0C04, 0x0C04, 1, false, false},
	{0x0C05, 0x0C0C, 2, false, false},
	{0x0C0D, 0x0C0D, 3, false, false},
	{0x0C0E, 0x0C10, 2, false, false},
	{0x0C11, 0x0C11, 3, false, false},
	{0x0C12, 0x0C28, 2, false, false},
	{0x0C29, 0x0C29, 3, false, false},
	{0x0C2A, 0x0C39, 2, false, false},
	{0x0C3A, 0x0C3C, 3, false, false},
	{0x0C3D, 0x0C3D, 2, false, false},
	{0x0C3E, 0x0C57, 3, false, false},
	{0x0C58, 0x0C5A, 2, false, false},
	{0x0C5B, 0x0C5C, 3, false, false},
	{0x0C5D, 0x0C5D, 2, false, false},
	{0x0C5E, 0x0C5F, 3, false, false},
	{0x0C60, 0x0C61, 2, false, false},
	{0x0C62, 0x0C65, 3, false, false},
	{0x0C66, 0x0C6F, 2, false, false},
	{0x0C70, 0x0C76, 3, false, false},
	{0x0C77, 0x0C80, 2, false, false},
	{0x0C81, 0x0C83, 3, false, false},
	{0x0C84, 0x0C8C, 2, false, false},
	{0x0C8D, 0x0C8D, 3, false, false},
	{0x0C8E, 0x0C90, 2, false, false},
	{0x0C91, 0x0C91, 3, false, false},
	{0x0C92, 0x0CA8, 2, false, false},
	{0x0CA9, 0x0CA9, 3, false, false},
	{0x0CAA, 0x0CB3, 2, false, false},
	{0x0CB4, 0x0CB4, 3, false, false},
	{0x0CB5, 0x0CB9, 2, false, false},
	{0x0CBA, 0x0CBC, 3, false, false},
	{0x0CBD, 0x0CBD, 2, false, false},
	{0x0CBE, 0x0CDC, 3, false, false},
	{0x0CDD, 0x0CDE, 2, false, false},
	{0x0CDF, 0x0CDF, 3, false, false},
	{0x0CE0, 0x0CE1, 2, false, false},
	{0x0CE2, 0x0CE5, 3, false, false},
	{0x0CE6, 0x0CEF, 2, false, false},
	{0x0CF0, 0x0CF0, 3, false, false},
	{0x0CF1, 0x0CF2, 2, false, false},
	{0x0CF3, 0x0CF3, 1, false, false},
	{0x0CF4, 0x0CFF, 3, false, false},
	{0x0D00, 0x0D00, 1, false, false},
	{0x0D01, 0x0D03, 3, false, false},
	{0x0D04, 0x0D0C, 2, false, false},
	{0x0D0D, 0x0D0D, 3, false, false},
	{0x0D0E, 0x0D10, 2, false, false},
	{0x0D11, 0x0D11, 3, false, false},
	{0x0D12, 0x0D3A, 2, false, false},
	{0x0D3B, 0x0D3C, 3, false, false},
	{0x0D3D, 0x0D3D, 2, false, false},
	{0x0D3E, 0x0D4D, 3, false, false},
	{0x0D4E, 0x0D4F, 2, false, false},
	{0x0D50, 0x0D53, 3, false, false},
	{0x0D54, 0x0D56, 2, false, false},
	{0x0D57, 0x0D57, 3, false, false},
	{0x0D58, 0x0D61, 2, false, false},
	{0x0D62, 0x0D65, 3, false, false},
	{0x0D66, 0x0D7F, 2, false, false},
	{0x0D80, 0x0D84, 3, false, false},
	{0x0D85, 0x0D96, 2, false, false},
	{0x0D97, 0x0D99, 3, false, false},
	{0x0D9A, 0x0DB1, 2, false, false},
	{0x0DB2, 0x0DB2, 3, false, false},
	{0x0DB3, 0x0DBB, 2, false, false},
	{0x0DBC, 0x0DBC, 3, false, false},
	{0x0DBD, 0x0DBD, 2, false, false},
	{0x0DBE, 0x0DBF, 3, false, false},
	{0x0DC0, 0x0DC6, 2, false, false},
	{0x0DC7, 0x0DE5, 3, false, false},
	{0x0DE6, 0x0DEF, 2, false, false},
	{0x0DF0, 0x0DF3, 3, false, false},
	{0x0DF4, 0x0DF4, 2, false, false},
	{0x0DF5, 0x0E00, 3, false, false},
	{0x0E01, 0x0E30, 2, false, false},
	{0x0E31, 0x0E31, 3, false, false},
	{0x0E32, 0x0E33, 2, false, false},
	{0x0E34, 0x0E3E, 3, false, false},
	{0x0E3F, 0x0E46, 2, false, false},
	{0x0E47, 0x0E4E, 3, false, false},
	{0x0E4F, 0x0E5B, 2, false, false},
	{0x0E5C, 0x0E80, 3, false, false},
	{0x0E81, 0x0E82, 2, false, false},
	{0x0E83, 0x0E83, 3, false, false},
	{0x0E84, 0x0E84, 2, false, false},
	{0x0E85, 0x0E85, 3, false, false},
	{0x0E86, 0x0E8A, 2, false, false},
	{0x0E8B, 0x0E8B, 3, false, false},
	{0x0E8C, 0x0EA3, 2, false, false},
	{0x0EA4, 0x0EA4, 3, false, false},
	{0x0EA5, 0x0EA5, 2, false, false},
	{0x0EA6, 0x0EA6, 3, false, false},
	{0x0EA7, 0x0EB0, 2, false, false},
	{0x0EB1, 0x0EB1, 3, false, false},
	{0x0EB2, 0x0EB3, 2, false, false},
	{0x0EB4, 0x0EBC, 3, false, false},
	{0x0EBD, 0x0EBD, 2, false, false},
	{0x0EBE, 0x0EBF, 3, false, false},
	{0x0EC0, 0x0EC4, 2, false, false},
	{0x0EC5, 0x0EC5, 3, false, false},
	{0x0EC6, 0x0EC6, 2, false, false},
	{0x0EC7, 0x0ECF, 3, false, false},
	{0x0ED0, 0x0ED9, 2, false, false},
	{0x0EDA, 0x0EDB, 3, false, false},
	{0x0EDC, 0x0EDF, 2, false, false},
	{0x0EE0, 0x0EFF, 3, false, false},
	{0x0F00, 0x0F17, 2, false, false},
	{0x0F18, 0x0F19, 3, false, false},
	{0x0F1A, 0x0F34, 2, false, false},
	{0x0F35, 0x0F35, 3, false, false},
	{0x0F36, 0x0F36, 2, false, false},
	{0x0F37, 0x0F37, 3, false, false},
	{0x0F38, 0x0F38, 2, false, false},
	{0x0F39, 0x0F39, 3, false, false},
	{0x0F3A, 0x0F3D, 2, false, false},
	{0x0F3E, 0x0F3F, 3, false, false},
	{0x0F40, 0x0F47, 2, false, false},
	{0x0F48, 0x0F48, 3, false, false},
	{0x0F49, 0x0F6C, 2, false, false},
	{0x0F6D, 0x0F84, 3, false, false},
	{0x0F85, 0x0F85, 2, false, false},
	{0x0F86, 0x0F87, 3, false, false},
	{0x0F88, 0x0F8C, 2, false, false},
	{0x0F8D, 0x0FBD, 3, false, false},
	{0x0FBE, 0x0FC5, 2, false, false},
	{0x0FC6, 0x0FC6, 3, false, false},
	{0x0FC7, 0x0FCC, 2, false, false},
	{0x0FCD, 0x0FCD, 3, false, false},
	{0x0FCE, 0x0FDA, 2, false, false},
	{0x0FDB, 0x0FFF, 3, false, false},
	{0x1000, 0x102A, 2, false, false},
	{0x102B, 0x103E, 3, false, false},
	{0x103F, 0x1055, 2, false, false},
	{0x1056, 0x1059, 3, false, false},
	{0x105A, 0x105D, 2, false, false},
	{0x105E, 0x1060, 3, false, false},
	{0x1061, 0x1061, 2, false, false},
	{0x1062, 0x1064, 3, false, false},
	{0x1065, 0x1066, 2, false, false},
	{0x1067, 0x106D, 3, false, false},
	{0x106E, 0x1070, 2, false, false},
	{0x1071, 0x1074, 3, false, false},
	{0x1075, 0x1081, 2, false, false},
	{0x1082, 0x108D, 3, false, false},
	{0x108E, 0x108E, 2, false, false},
	{0x108F, 0x108F, 3, false, false},
	{0x1090, 0x1099, 2, false, false},
	{0x109A, 0x109D, 3, false, false},
	{0x109E, 0x10C5, 2, false, false},
	{0x10C6, 0x10C6, 3, false, false},
	{0x10C7, 0x10C7, 2, false, false},
	{0x10C8, 0x10CC, 3, false, false},
	{0x10CD, 0x10CD, 2, false, false},
	{0x10CE, 0x10CF, 3, false, false},
	{0x10D0, 0x10FF, 2, false, false},
	{0x1100, 0x115F, 4, false, false},
	{0x1160, 0x1248, 2, false, false},
	{0x1249, 0x1249, 3, false, false},
	{0x124A, 0x124D, 2, false, false},
	{0x124E, 0x124F, 3, false, false},
	{0x1250, 0x1256, 2, false, false},
	{0x1257, 0x1257, 3, false, false},
	{0x1258, 0x1258, 2, false, false},
	{0x1259, 0x1259, 3, false, false},
	{0x125A, 0x125D, 2, false, false},
	{0x125E, 0x125F, 3, false, false},
	{0x1260, 0x1288, 2, false, false},
	{0x1289, 0x1289, 3, false, false},
	{0x128A, 0x128D, 2, false, false},
	{0x128E, 0x128F, 3, false, false},
	{0x1290, 0x12B0, 2, false, false},
	{0x12B1, 0x12B1, 3, false, false},
	{0x12B2, 0x12B5, 2, false, false},
	{0x12B6, 0x12B7, 3, false, false},
	{0x12B8, 0x12BE, 2, false, false},
	{0x12BF, 0x12BF, 3, false, false},
	{0x12C0, 0x12C0, 2, false, false},
	{0x12C1, 0x12C1, 3, false, false},
	{0x12C2, 0x12C5, 2, false, false},
	{0x12C6, 0x12C7, 3, false, false},
	{0x12C8, 0x12D6, 2, false, false},
	{0x12D7, 0x12D7, 3, false, false},
	{0x12D8, 0x1310, 2, false, false},
	{0x1311, 0x1311, 3, false, false},
	{0x1312, 0x1315, 2, false, false},
	{0x1316, 0x1317, 3, false, false},
	{0x1318, 0x135A, 2, false, false},
	{0x135B, 0x135C, 3, false, false},
	{0x135D, 0x135F, 1, false, false},
	{0x1360, 0x137C, 2, false, false},
	{0x137D, 0x137F, 3, false, false},
	{0x1380, 0x1399, 2, false, false},
	{0x139A, 0x139F, 3, false, false},
	{0x13A0, 0x13F5, 2, false, false},
	{0x13F6, 0x13F7, 3, false, false},
	{0x13F8, 0x13FD, 2, false, false},
	{0x13FE, 0x13FF, 3, false, false},
	{0x1400, 0x169C, 2, false, false},
	{0x169D, 0x169F, 3, false, false},
	{0x16A0, 0x16F8, 2, false, false},
	{0x16F9, 0x16FF, 3, false, false},
	{0x1700, 0x1711, 2, false, false},
	{0x1712, 0x171E, 3, false, false},
	{0x171F, 0x1731, 2, false, false},
	{0x1732, 0x1734, 3, false, false},
	{0x1735, 0x1736, 2, false, false},
	{0x1737, 0x173F, 3, false, false},
	{0x1740, 0x1751, 2, false, false},
	{0x1752, 0x175F, 3, false, false},
	{0x1760, 0x176C, 2, false, false},
	{0x176D, 0x176D, 3, false, false},
	{0x176E, 0x1770, 2, false, false},
	{0x1771, 0x177F, 3, false, false},
	{0x1780, 0x17B3, 2, false, false},
	{0x17B4, 0x17D3, 3, false, false},
	{0x17D4, 0x17DC, 2, false, false},
	{0x17DD, 0x17DF, 3, false, false},
	{0x17E0, 0x17E9, 2, false, false},
	{0x17EA, 0x17EF, 3, false, false},
	{0x17F0, 0x17F9, 2, false, false},
	{0x17FA, 0x17FF, 3, false, false},
	{0x1800, 0x180A, 2, false, false},
	{0x180B, 0x180F, 3, false, false},
	{0x1810, 0x1819, 2, false, false},
	{0x181A, 0x181F, 3, false, false},
	{0x1820, 0x1878, 2, false, false},
	{0x1879, 0x187F, 3, false, false},
	{0x1880, 0x1884, 2, false, false},
	{0x1885, 0x1886, 3, false, false},
	{0x1887, 0x18A8, 2, false, false},
	{0x18A9, 0x18A9, 3, false, false},
	{0x18AA, 0x18AA, 2, false, false},
	{0x18AB, 0x18AF, 3, false, false},
	{0x18B0, 0x18F5, 2, false, false},
	{0x18F6, 0x18FF, 3, false, false},
	{0x1900, 0x191E, 2, false, false},
	{0x191F, 0x193F, 3, false, false},
	{0x1940, 0x1940, 2, false, false},
	{0x1941, 0x1943, 3, false, false},
	{0x1944, 0x196D, 2, false, false},
	{0x196E, 0x196F, 3, false, false},
	{0x1970, 0x1974, 2, false, false},
	{0x1975, 0x197F, 3, false, false},
	{0x1980, 0x19AB, 2, false, false},
	{0x19AC, 0x19AF, 3, false, false},
	{0x19B0, 0x19C9, 2, false, false},
	{0x19CA, 0x19CF, 3, false, false},
	{0x19D0, 0x19DA, 2, false, false},
	{0x19DB, 0x19DD, 3, false, false},
	{0x19DE, 0x1A16, 2, false, false},
	{0x1A17, 0x1A1D, 3, false, false},
	{0x1A1E, 0x1A54, 2, false, false},
	{0x1A55, 0x1A7E, 3, false, false},
	{0x1A7F, 0x1A7F, 1, false, false},
	{0x1A80, 0x1A89, 2, false, false},
	{0x1A8A, 0x1A8F, 3, false, false},
	{0x1A90, 0x1A99, 2, false, false},
	{0x1A9A, 0x1A9F, 3, false, false},
	{0x1AA0, 0x1AAD, 2, false, false},
	{0x1AAE, 0x1AAF, 3, false, false},
	{0x1AB0, 0x1ACE, 1, false, false},
	{0x1ACF, 0x1B04, 3, false, false},
	{0x1B05, 0x1B33, 2, false, false},
	{0x1B34, 0x1B44, 3, false, false},
	{0x1B45, 0x1B4C, 2, false, false},
	{0x1B4D, 0x1B4F, 3, false, false},
	{0x1B50, 0x1B6A, 2, false, false},
	{0x1B6B, 0x1B73, 1, false, false},
	{0x1B74, 0x1B7E, 2, false, false},
	{0x1B7F, 0x1B82, 3, false, false},
	{0x1B83, 0x1BA0, 2, false, false},
	{0x1BA1, 0x1BAD, 3, false, false},
	{0x1BAE, 0x1BE5, 2, false, false},
	{0x1BE6, 0x1BFB, 3, false, false},
	{0x1BFC, 0x1C23, 2, false, false},
	{0x1C24, 0x1C3A, 3, false, false},
	{0x1C3B, 0x1C49, 2, false, false},
	{0x1C4A, 0x1C4C, 3, false, false},
	{0x1C4D, 0x1C88, 2, false, false},
	{0x1C89, 0x1C8F, 3, false, false},
	{0x1C90, 0x1CBA, 2, false, false},
	{0x1CBB, 0x1CBC, 3, false, false},
	{0x1CBD, 0x1CC7, 2, false, false},
	{0x1CC8, 0x1CD2, 3, false, false},
	{0x1CD3, 0x1CD3, 2, false, false},
	{0x1CD4, 0x1CE8, 3, false, false},
	{0x1CE9, 0x1CEC, 2, false, false},
	{0x1CED, 0x1CED, 3, false, false},
	{0x1CEE, 0x1CF3, 2, false, false},
	{0x1CF4, 0x1CF4, 3, false, false},
	{0x1CF5, 0x1CF6, 2, false, false},
	{0x1CF7, 0x1CF9, 3, false, false},
	{0x1CFA, 0x1CFA, 2, false, false},
	{0x1CFB, 0x1CFF, 3, false, false},
	{0x1D00, 0x1DBF, 2, false, false},
	{0x1DC0, 0x1DFF, 1, false, false},
	{0x1E00, 0x1F15, 2, false, false},
	{0x1F16, 0x1F17, 3, false, false},
	{0x1F18, 0x1F1D, 2, false, false},
	{0x1F1E, 0x1F1F, 3, false, false},
	{0x1F20, 0x1F45, 2, false, false},
	{0x1F46, 0x1F47, 3, false, false},
	{0x1F48, 0x1F4D, 2, false, false},
	{0x1F4E, 0x1F4F, 3, false, false},
	{0x1F50, 0x1F57, 2, false, false},
	{0x1F58, 0x1F58, 3, false, false},
	{0x1F59, 0x1F59, 2, false, false},
	{0x1F5A, 0x1F5A, 3, false, false},
	{0x1F5B, 0x1F5B, 2, false, false},
	{0x1F5C, 0x1F5C, 3, false, false},
	{0x1F5D, 0x1F5D, 2, false, false},
	{0x1F5E, 0x1F5E, 3, false, false},
	{0x1F5F, 0x1F7D, 2, false, false},
	{0x1F7E, 0x1F7F, 3, false, false},
	{0x1F80, 0x1FB4, 2, false, false},
	{0x1FB5, 0x1FB5, 3, false, false},
	{0x1FB6, 0x1FC4, 2, false, false},
	{0x1FC5, 0x1FC5, 3, false, false},
	{0x1FC6, 0x1FD3, 2, false, false},
	{0x1FD4, 0x1FD5, 3, false, false},
	{0x1FD6, 0x1FDB, 2, false, false},
	{0x1FDC, 0x1FDC, 3, false, false},
	{0x1FDD, 0x1FEF, 2, false, false},
	{0x1FF0, 0x1FF1, 3, false, false},
	{0x1FF2, 0x1FF4, 2, false, false},
	{0x1FF5, 0x1FF5, 3, false, false},
	{0x1FF6, 0x1FFE, 2, false, false},
	{0x1FFF, 0x1FFF, 3, false, false},
	{0x2000, 0x200A, 2, false, false},
	{0x200B, 0x200F, 3, false, false},
	{0x2010, 0x2010, 2, true, false},
	{0x2011, 0x2012, 2, false, false},
	{0x2013, 0x2016, 2, true, false},
	{0x2017, 0x2017, 2, false, false},
	{0x2018, 0x2019, 2, true, false},
	{0x201A, 0x201B, 2, false, false},
	{0x201C, 0x201D, 2, true, false},
	{0x201E, 0x201F, 2, false, false},
	{0x2020, 0x2022, 2, true, false},
	{0x2023, 0x2023, 2, false, false},
	{0x2024, 0x2027, 2, true, false},
	{0x2028, 0x202E, 3, false, false},
	{0x202F, 0x202F, 2, false, false},
	{0x2030, 0x2030, 2, true, false},
	{0x2031, 0x2031, 2, false, false},
	{0x2032, 0x2033, 2, true, false},
	{0x2034, 0x2034, 2, false, false},
	{0x2035, 0x2035, 2, true, false},
	{0x2036, 0x203A, 2, false, false},
	{0x203B, 0x203B, 2, true, false},
	{0x203C, 0x203C, 2, false, true},
	{0x203D, 0x203D, 2, false, false},
	{0x203E, 0x203E, 2, true, false},
	{0x203F, 0x2048, 2, false, false},
	{0x2049, 0x2049, 2, false, true},
	{0x204A, 0x205F, 2, false, false},
	{0x2060, 0x206F, 3, false, false},
	{0x2070, 0x2071, 2, false, false},
	{0x2072, 0x2073, 3, false, false},
	{0x2074, 0x2074, 2, true, false},
	{0x2075, 0x207E, 2, false, false},
	{0x207F, 0x207F, 2, true, false},
	{0x2080, 0x2080, 2, false, false},
	{0x2081, 0x2084, 2, true, false},
	{0x2085, 0x208E, 2, false, false},
	{0x208F, 0x208F, 3, false, false},
	{0x2090, 0x209C, 2, false, false},
	{0x209D, 0x209F, 3, false, false},
	{0x20A0, 0x20AB, 2, false, false},
	{0x20AC, 0x20AC, 2, true, false},
	{0x20AD, 0x20C0, 2, false, false},
	{0x20C1, 0x20CF, 3, false, false},
	{0x20D0, 0x20F0, 1, false, false},
	{0x20F1, 0x20FF, 3, false, false},
	{0x2100, 0x2102, 2, false, false},
	{0x2103, 0x2103, 2, true, false},
	{0x2104, 0x2104, 2, false, false},
	{0x2105, 0x2105, 2, true, false},
	{0x2106, 0x2108, 2, false, false},
	{0x2109, 0x2109, 2, true, false},
	{0x210A, 0x2112, 2, false, false},
	{0x2113, 0x2113, 2, true, false},
	{0x2114, 0x2115, 2, false, false},
	{0x2116, 0x2116, 2, true, false},
	{0x2117, 0x2120, 2, false, false},
	{0x2121, 0x2121, 2, true, false},
	{0x2122, 0x2122, 2, true, true},
	{0x2123, 0x2125, 2, false, false},
	{0x2126, 0x2126, 2, true, false},
	{0x2127, 0x212A, 2, false, false},
	{0x212B, 0x212B, 2, true, false},
	{0x212C, 0x2138, 2, false, false},
	{0x2139, 0x2139, 2, false, true},
	{0x213A, 0x2152, 2, false, false},
	{0x2153, 0x2154, 2, true, false},
	{0x2155, 0x215A, 2, false, false},
	{0x215B, 0x215E, 2, true, false},
	{0x215F, 0x215F, 2, false, false},
	{0x2160, 0x216B, 2, true, false},
	{0x216C, 0x216F, 2, false, false},
	{0x2170, 0x2179, 2, true, false},
	{0x217A, 0x2188, 2, false, false},
	{0x2189, 0x2189, 2, true, false},
	{0x218A, 0x218B, 2, false, false},
	{0x218C, 0x218F, 3, false, false},
	{0x2190, 0x2193, 2, true, false},
	{0x2194, 0x2199, 2, true, true},
	{0x219A, 0x21A8, 2, false, false},
	{0x21A9, 0x21AA, 2, false, true},
	{0x21AB, 0x21B7, 2, false, false},
	{0x21B8, 0x21B9, 2, true, false},
	{0x21BA, 0x21D1, 2, false, false},
	{0x21D2, 0x21D2, 2, true, false},
	{0x21D3, 0x21D3, 2, false, false},
	{0x21D4, 0x21D4, 2, true, false},
	{0x21D5, 0x21E6, 2, false, false},
	{0x21E7, 0x21E7, 2, true, false},
	{0x21E8, 0x21FF, 2, false, false},
	{0x2200, 0x2200, 2, true, false},
	{0x2201, 0x2201, 2, false, false},
	{0x2202, 0x2203, 2, true, false},
	{0x2204, 0x2206, 2, false, false},
	{0x2207, 0x2208, 2, true, false},
	{0x2209, 0x220A, 2, false, false},
	{0x220B, 0x220B, 2, true, false},
	{0x220C, 0x220E, 2, false, false},
	{0x220F, 0x220F, 2, true, false},
	{0x2210, 0x2210, 2, false, false},
	{0x2211, 0x2211, 2, true, false},
	{0x2212, 0x2214, 2, false, false},
	{0x2215, 0x2215, 2, true, false},
	{0x2216, 0x2219, 2, false, false},
	{0x221A, 0x221A, 2, true, false},
	{0x221B, 0x221C, 2, false, false},
	{0x221D, 0x2220, 2, true, false},
	{0x2221, 0x2222, 2, false, false},
	{0x2223, 0x2223, 2, true, false},
	{0x2224, 0x2224, 2, false, false},
	{0x2225, 0x2225, 2, true, false},
	{0x2226, 0x2226, 2, false, false},
	{0x2227, 0x222C, 2, true, false},
	{0x222D, 0x222D, 2, false, false},
	{0x222E, 0x222E, 2, true, false},
	{0x222F, 0x2233, 2, false, false},
	{0x2234, 0x2237, 2, true, false},
	{0x2238, 0x223B, 2, false, false},
	{0x223C, 0x223D, 2, true, false},
	{0x223E, 0x2247, 2, false, false},
	{0x2248, 0x2248, 2, true, false},
	{0x2249, 0x224B, 2, false, false},
	{0x224C, 0x224C, 2, true, false},
	{0x224D, 0x2251, 2, false, false},
	{0x2252, 0x2252, 2, true, false},
	{0x2253, 0x225F, 2, false, false},
	{0x2260, 0x2261, 2, true, false},
	{0x2262, 0x2263, 2, false, false},
	{0x2264, 0x2267, 2, true, false},
	{0x2268, 0x2269, 2, false, false},
	{0x226A, 0x226B, 2, true, false},
	{0x226C, 0x226D, 2, false, false},
	{0x226E, 0x226F, 2, true, false},
	{0x2270, 0x2281, 2, false, false},
	{0x2282, 0x2283, 2, true, false},
	{0x2284, 0x2285, 2, false, false},
	{0x2286, 0x2287, 2, true, false},
	{0x2288, 0x2294, 2, false, false},
	{0x2295, 0x2295, 2, true, false},
	{0x2296, 0x2298, 2, false, false},
	{0x2299, 0x2299, 2, true, false},
	{0x229A, 0x22A4, 2, false, false},
	{0x22A5, 0x22A5, 2, true, false},
	{0x22A6, 0x22BE, 2, false, false},
	{0x22BF, 0x22BF, 2, true, false},
	{0x22C0, 0x2311, 2, false, false},
	{0x2312, 0x2312, 2, true, false},
	{0x2313, 0x2319, 2, false, false},
	{0x231A, 0x231B, 4, false, true},
	{0x231C, 0x2327, 2, false, false},
	{0x2328, 0x2328, 2, false, true},
	{0x2329, 0x232A, 4, false, false},
	{0x232B, 0x2387, 2, false, false},
	{0x2388, 0x2388, 2, false, true},
	{0x2389, 0x23CE, 2, false, false},
	{0x23CF, 0x23CF, 2, false, true},
	{0x23D0, 0x23E8, 2, false, false},
	{0x23E9, 0x23EC, 4, false, true},
	{0x23ED, 0x23EF, 2, false, true},
	{0x23F0, 0x23F0, 4, false, true},
	{0x23F1, 0x23F2, 2, false, true},
	{0x23F3, 0x23F3, 4, false, true},
	{0x23F4, 0x23F7, 2, false, false},
	{0x23F8, 0x23FA, 2, false, true},
	{0x23FB, 0x2426, 2, false, false},
	{0x2427, 0x243F, 3, false, false},
	{0x2440, 0x244A, 2, false, false},
	{0x244B, 0x245F, 3, false, false},
	{0x2460, 0x24C1, 2, true, false},
	{0x24C2, 0x24C2, 2, true, true},
	{0x24C3, 0x24E9, 2, true, false},
	{0x24EA, 0x24EA, 2, false, false},
	{0x24EB, 0x254B, 2, true, false},
	{0x254C, 0x254F, 2, false, false},
	{0x2550, 0x2573, 2, true, false},
	{0x2574, 0x257F, 2, false, false},
	{0x2580, 0x258F, 2, true, false},
	{0x2590, 0x2591, 2, false, false},
	{0x2592, 0x2595, 2, true, false},
	{0x2596, 0x259F, 2, false, false},
	{0x25A0, 0x25A1, 2, true, false},
	{0x25A2, 0x25A2, 2, false, false},
	{0x25A3, 0x25A9, 2, true, false},
	{0x25AA, 0x25AB, 2, false, true},
	{0x25AC, 0x25B1, 2, false, false},
	{0x25B2, 0x25B3, 2, true, false},
	{0x25B4, 0x25B5, 2, false, false},
	{0x25B6, 0x25B6, 2, true, true},
	{0x25B7, 0x25B7, 2, true, false},
	{0x25B8, 0x25BB, 2, false, false},
	{0x25BC, 0x25BD, 2, true, false},
	{0x25BE, 0x25BF, 2, false, false},
	{0x25C0, 0x25C0, 2, true, true},
	{0x25C1, 0x25C1, 2, true, false},
	{0x25C2, 0x25C5, 2, false, false},
	{0x25C6, 0x25C8, 2, true, false},
	{0x25C9, 0x25CA, 2, false, false},
	{0x25CB, 0x25CB, 2, true, false},
	{0x25CC, 0x25CD, 2, false, false},
	{0x25CE, 0x25D1, 2, true, false},
	{0x25D2, 0x25E1, 2, false, false},
	{0x25E2, 0x25E5, 2, true, false},
	{0x25E6, 0x25EE, 2, false, false},
	{0x25EF, 0x25EF, 2, true, false},
	{0x25F0, 0x25FA, 2, false, false},
	{0x25FB, 0x25FC, 2, false, true},
	{0x25FD, 0x25FE, 4, false, true},
	{0x25FF, 0x25FF, 2, false, false},
	{0x2600, 0x2604, 2, false, true},
	{0x2605, 0x2605, 2, true, true},
	{0x2606, 0x2606, 2, true, false},
	{0x2607, 0x2608, 2, false, true},
	{0x2609, 0x2609, 2, true, true},
	{0x260A, 0x260D, 2, false, true},
	{0x260E, 0x260F, 2, true, true},
	{0x2610, 0x2612, 2, false, true},
	{0x2613, 0x2613, 2, false, false},
	{0x2614, 0x2615, 4, false, true},
	{0x2616, 0x261B, 2, false, true},
	{0x261C, 0x261C, 2, true, true},
	{0x261D, 0x261D, 2, false, true},
	{0x261E, 0x261E, 2, true, true},
	{0x261F, 0x263F, 2, false, true},
	{0x2640, 0x2640, 2, true, true},
	{0x2641, 0x2641, 2, false, true},
	{0x2642, 0x2642, 2, true, true},
	{0x2643, 0x2647, 2, false, true},
	{0x2648, 0x2653, 4, false, true},
	{0x2654, 0x265F, 2, false, true},
	{0x2660, 0x2661, 2, true, true},
	{0x2662, 0x2662, 2, false, true},
	{0x2663, 0x2665, 2, true, true},
	{0x2666, 0x2666, 2, false, true},
	{0x2667, 0x266A, 2, true, true},
	{0x266B, 0x266B, 2, false, true},
	{0x266C, 0x266D, 2, true, true},
	{0x266E, 0x266E, 2, false, true},
	{0x266F, 0x266F, 2, true, true},
	{0x2670, 0x267E, 2, false, true},
	{0x267F, 0x267F, 4, false, true},
	{0x2680, 0x2685, 2, false, true},
	{0x2686, 0x268F, 2, false, false},
	{0x2690, 0x2692, 2, false, true},
	{0x2693, 0x2693, 4, false, true},
	{0x2694, 0x269D, 2, false, true},
	{0x269E, 0x269F, 2, true, true},
	{0x26A0, 0x26A0, 2, false, true},
	{0x26A1, 0x26A1, 4, false, true},
	{0x26A2, 0x26A9, 2, false, true},
	{0x26AA, 0x26AB, 4, false, true},
	{0x26AC, 0x26BC, 2, false, true},
	{0x26BD, 0x26BE, 4, false, true},
	{0x26BF, 0x26BF, 2, true, true},
	{0x26C0, 0x26C3, 2, false, true},
	{0x26C4, 0x26C5, 4, false, true},
	{0x26C6, 0x26CD, 2, true, true},
	{0x26CE, 0x26CE, 4, false, true},
	{0x26CF, 0x26D3, 2, true, true},
	{0x26D4, 0x26D4, 4, false, true},
	{0x26D5, 0x26E1, 2, true, true},
	{0x26E2, 0x26E2, 2, false, true},
	{0x26E3, 0x26E3, 2, true, true},
	{0x26E4, 0x26E7, 2, false, true},
	{0x26E8, 0x26E9, 2, true, true},
	{0x26EA, 0x26EA, 4, false, true},
	{0x26EB, 0x26F1, 2, true, true},
	{0x26F2, 0x26F3, 4, false, true},
	{0x26F4, 0x26F4, 2, true, true},
	{0x26F5, 0x26F5, 4, false, true},
	{0x26F6, 0x26F9, 2, true, true},
	{0x26FA, 0x26FA, 4, false, true},
	{0x26FB, 0x26FC, 2, true, true},
	{0x26FD, 0x26FD, 4, false, true},
	{0x26FE, 0x26FF, 2, true, true},
	{0x2700, 0x2704, 2, false, true},
	{0x2705, 0x2705, 4, false, true},
	{0x2706, 0x2707, 2, false, false},
	{0x2708, 0x2709, 2, false, true},
	{0x270A, 0x270B, 4, false, true},
	{0x270C, 0x2712, 2, false, true},
	{0x2713, 0x2713, 2, false, false},
	{0x2714, 0x2714, 2, false, true},
	{0x2715, 0x2715, 2, false, false},
	{0x2716, 0x2716, 2, false, true},
	{0x2717, 0x271C, 2, false, false},
	{0x271D, 0x271D, 2, false, true},
	{0x271E, 0x2720, 2, false, false},
	{0x2721, 0x2721, 2, false, true},
	{0x2722, 0x2727, 2, false, false},
	{0x2728, 0x2728, 4, false, true},
	{0x2729, 0x2732, 2, false, false},
	{0x2733, 0x2734, 2, false, true},
	{0x2735, 0x273C, 2, false, false},
	{0x273D, 0x273D, 2, true, false},
	{0x273E, 0x2743, 2, false, false},
	{0x2744, 0x2744, 2, false, true},
	{0x2745, 0x2746, 2, false, false},
	{0x2747, 0x2747, 2, false, true},
	{0x2748, 0x274B, 2, false, false},
	{0x274C, 0x274C, 4, false, true},
	{0x274D, 0x274D, 2, false, false},
	{0x274E, 0x274E, 4, false, true},
	{0x274F, 0x2752, 2, false, false},
	{0x2753, 0x2755, 4, false, true},
	{0x2756, 0x2756, 2, false, false},
	{0x2757, 0x2757, 4, false, true},
	{0x2758, 0x2762, 2, false, false},
	{0x2763, 0x2767, 2, false, true},
	{0x2768, 0x2775, 2, false, false},
	{0x2776, 0x277F, 2, true, false},
	{0x2780, 0x2794, 2, false, false},
	{0x2795, 0x2797, 4, false, true},
	{0x2798, 0x27A0, 2, false, false},
	{0x27A1, 0x27A1, 2, false, true},
	{0x27A2, 0x27AF, 2, false, false},
	{0x27B0, 0x27B0, 4, false, true},
	{0x27B1, 0x27BE, 2, false, false},
	{0x27BF, 0x27BF, 4, false, true},
	{0x27C0, 0x2933, 2, false, false},
	{0x2934, 0x2935, 2, false, true},
	{0x2936, 0x2B04, 2, false, false},
	{0x2B05, 0x2B07, 2, false, true},
	{0x2B08, 0x2B1A, 2, false, false},
	{0x2B1B, 0x2B1C, 4, false, true},
	{0x2B1D, 0x2B4F, 2, false, false},
	{0x2B50, 0x2B50, 4, false, true},
	{0x2B51, 0x2B54, 2, false, false},
	{0x2B55, 0x2B55, 4, false, true},
	{0x2B56, 0x2B59, 2, true, false},
	{0x2B5A, 0x2B73, 2, false, false},
	{0x2B74, 0x2B75, 3, false, false},
	{0x2B76, 0x2B95, 2, false, false},
	{0x2B96, 0x2B96, 3, false, false},
	{0x2B97, 0x2CEE, 2, false, false},
	{0x2CEF, 0x2CF1, 1, false, false},
	{0x2CF2, 0x2CF3, 2, false, false},
	{0x2CF4, 0x2CF8, 3, false, false},
	{0x2CF9, 0x2D25, 2, false, false},
	{0x2D26, 0x2D26, 3, false, false},
	{0x2D27, 0x2D27, 2, false, false},
	{0x2D28, 0x2D2C, 3, false, false},
	{0x2D2D, 0x2D2D, 2, false, false},
	{0x2D2E, 0x2D2F, 3, false, false},
	{0x2D30, 0x2D67, 2, false, false},
	{0x2D68, 0x2D6E, 3, false, false},
	{0x2D6F, 0x2D70, 2, false, false},
	{0x2D71, 0x2D7F, 3, false, false},
	{0x2D80, 0x2D96, 2, false, false},
	{0x2D97, 0x2D9F, 3, false, false},
	{0x2DA0, 0x2DA6, 2, false, false},
	{0x2DA7, 0x2DA7, 3, false, false},
	{0x2DA8, 0x2DAE, 2, false, false},
	{0x2DAF, 0x2DAF, 3, false, false},
	{0x2DB0, 0x2DB6, 2, false, false},
	{0x2DB7, 0x2DB7, 3, false, false},
	{0x2DB8, 0x2DBE, 2, false, false},
	{0x2DBF, 0x2DBF, 3, false, false},
	{0x2DC0, 0x2DC6, 2, false, false},
	{0x2DC7, 0x2DC7, 3, false, false},
	{0x2DC8, 0x2DCE, 2, false, false},
	{0x2DCF, 0x2DCF, 3, false, false},
	{0x2DD0, 0x2DD6, 2, false, false},
	{0x2DD7, 0x2DD7, 3, false, false},
	{0x2DD8, 0x2DDE, 2, false, false},
	{0x2DDF, 0x2DDF, 3, false, false},
	{0x2DE0, 0x2DFF, 1, false, false},
	{0x2E00, 0x2E39, 2, false, false},
	{0x2E3A, 0x2E3A, 8, false, false},
	{0x2E3B, 0x2E3B, 16, false, false},
	{0x2E3C, 0x2E5D, 2, false, false},
	{0x2E5E, 0x2E7F, 3, false, false},
	{0x2E80, 0x2E99, 4, false, false},
	{0x2E9A, 0x2E9A, 3, false, false},
	{0x2E9B, 0x2EF3, 4, false, false},
	{0x2EF4, 0x2EFF, 3, false, false},
	{0x2F00, 0x2FD5, 4, false, false},
	{0x2FD6, 0x2FEF, 3, false, false},
	{0x2FF0, 0x2FFB, 4, false, false},
	{0x2FFC, 0x2FFF, 3, false, false},
	{0x3000, 0x3029, 4, false, false},
	{0x302A, 0x302F, 5, false, false},
	{0x3030, 0x3030, 4, false, true},
	{0x3031, 0x303C, 4, false, false},
	{0x303D, 0x303D, 4, false, true},
	{0x303E, 0x303E, 4, false, false},
	{0x303F, 0x303F, 2, false, false},
	{0x3040, 0x3040, 3, false, false},
	{0x3041, 0x3096, 4, false, false},
	{0x3097, 0x3098, 3, false, false},
	{0x3099, 0x309A, 1, false, false},
	{0x309B, 0x30FF, 4, false, false},
	{0x3100, 0x3104, 3, false, false},
	{0x3105, 0x312F, 4, false, false},
	{0x3130, 0x3130, 3, false, false},
	{0x3131, 0x318E, 4, false, false},
	{0x318F, 0x318F, 3, false, false},
	{0x3190, 0x31E3, 4, false, false},
	{0x31E4, 0x31EF, 3, false, false},
	{0x31F0, 0x321E, 4, false, false},
	{0x321F, 0x321F, 3, false, false},
	{0x3220, 0x3247, 4, false, false},
	{0x3248, 0x324F, 2, true, false},
	{0x3250, 0x3296, 4, false, false},
	{0x3297, 0x3297, 4, false, true},
	{0x3298, 0x3298, 4, false, false},
	{0x3299, 0x3299, 4, false, true},
	{0x329A, 0x4DBF, 4, false, false},
	{0x4DC0, 0x4DFF, 2, false, false},
	{0x4E00, 0xA48C, 4, false, false},
	{0xA48D, 0xA48F, 3, false, false},
	{0xA490, 0xA4C6, 4, false, false},
	{0xA4C7, 0xA4CF, 3, false, false},
	{0xA4D0, 0xA62B, 2, false, false},
	{0xA62C, 0xA63F, 3, false, false},
	{0xA640, 0xA66E, 2, false, false},
	{0xA66F, 0xA672, 1, false, false},
	{0xA673, 0xA673, 2, false, false},
	{0xA674, 0xA67D, 1, false, false},
	{0xA67E, 0xA69D, 2, false, false},
	{0xA69E, 0xA69F, 1, false, false},
	{0xA6A0, 0xA6EF, 2, false, false},
	{0xA6F0, 0xA6F1, 1, false, false},
	{0xA6F2, 0xA6F7, 2, false, false},
	{0xA6F8, 0xA6FF, 3, false, false},
	{0xA700, 0xA7CA, 2, false, false},
	{0xA7CB, 0xA7CF, 3, false, false},
	{0xA7D0, 0xA7D1, 2, false, false},
	{0xA7D2, 0xA7D2, 3, false, false},
	{0xA7D3, 0xA7D3, 2, false, false},
	{0xA7D4, 0xA7D4, 3, false, false},
	{0xA7D5, 0xA7D9, 2, false, false},
	{0xA7DA, 0xA7F1, 3, false, false},
	{0xA7F2, 0xA801, 2, false, false},
	{0xA802, 0xA802, 3, false, false},
	{0xA803, 0xA805, 2, false, false},
	{0xA806, 0xA806, 3, false, false},
	{0xA807, 0xA80A, 2, false, false},
	{0xA80B, 0xA80B, 3, false, false},
	{0xA80C, 0xA822, 2, false, false},
	{0xA823, 0xA827, 3, false, false},
	{0xA828, 0xA82B, 2, false, false},
	{0xA82C, 0xA82F, 3, false, false},
	{0xA830, 0xA839, 2, false, false},
	{0xA83A, 0xA83F, 3, false, false},
	{0xA840, 0xA877, 2, false, false},
	{0xA878, 0xA881, 3, false, false},
	{0xA882, 0xA8B3, 2, false, false},
	{0xA8B4, 0xA8CD, 3, false, false},
	{0xA8CE, 0xA8D9, 2, false, false},
	{0xA8DA, 0xA8DF, 3, false, false},
	{0xA8E0, 0xA8F1, 1, false, false},
	{0xA8F2, 0xA8FE, 2, false, false},
	{0xA8FF, 0xA8FF, 3, false, false},
	{0xA900, 0xA925, 2, false, false},
	{0xA926, 0xA92D, 3, false, false},
	{0xA92E, 0xA946, 2, false, false},
	{0xA947, 0xA95E, 3, false, false},
	{0xA95F, 0xA95F, 2, false, false},
	{0xA960, 0xA97C, 4, false, false},
	{0xA97D, 0xA983, 3, false, false},
	{0xA984, 0xA9B2, 2, false, false},
	{0xA9B3, 0xA9C0, 3, false, false},
	{0xA9C1, 0xA9CD, 2, false, false},
	{0xA9CE, 0xA9CE, 3, false, false},
	{0xA9CF, 0xA9D9, 2, false, false},
	{0xA9DA, 0xA9DD, 3, false, false},
	{0xA9DE, 0xA9E4, 2, false, false},
	{0xA9E5, 0xA9E5, 3, false, false},
	{0xA9E6, 0xA9FE, 2, false, false},
	{0xA9FF, 0xA9FF, 3, false, false},
	{0xAA00, 0xAA28, 2, false, false},
	{0xAA29, 0xAA3F, 3, false, false},
	{0xAA40, 0xAA42, 2, false, false},
	{0xAA43, 0xAA43, 3, false, false},
	{0xAA44, 0xAA4B, 2, false, false},
	{0xAA4C, 0xAA4F, 3, false, false},
	{0xAA50, 0xAA59, 2, false, false},
	{0xAA5A, 0xAA5B, 3, false, false},
	{0xAA5C, 0xAA7A, 2, false, false},
	{0xAA7B, 0xAA7D, 3, false, false},
	{0xAA7E, 0xAAAF, 2, false, false},
	{0xAAB0, 0xAAB0, 3, false, false},
	{0xAAB1, 0xAAB1, 2, false, false},
	{0xAAB2, 0xAAB4, 3, false, false},
	{0xAAB5, 0xAAB6, 2, false, false},
	{0xAAB7, 0xAAB8, 3, false, false},
	{0xAAB9, 0xAABD, 2, false, false},
	{0xAABE, 0xAABF, 3, false, false},
	{0xAAC0, 0xAAC0, 2, false, false},
	{0xAAC1, 0xAAC1, 3, false, false},
	{0xAAC2, 0xAAC2, 2, false, false},
	{0xAAC3, 0xAADA, 3, false, false},
	{0xAADB, 0xAAEA, 2, false, false},
	{0xAAEB, 0xAAEF, 3, false, false},
	{0xAAF0, 0xAAF4, 2, false, false},
	{0xAAF5, 0xAB00, 3, false, false},
	{0xAB01, 0xAB06, 2, false, false},
	{0xAB07, 0xAB08, 3, false, false},
	{0xAB09, 0xAB0E, 2, false, false},
	{0xAB0F, 0xAB10, 3, false, false},
	{0xAB11, 0xAB16, 2, false, false},
	{0xAB17, 0xAB1F, 3, false, false},
	{0xAB20, 0xAB26, 2, false, false},
	{0xAB27, 0xAB27, 3, false, false},
	{0xAB28, 0xAB2E, 2, false, false},
	{0xAB2F, 0xAB2F, 3, false, false},
	{0xAB30, 0xAB6B, 2, false, false},
	{0xAB6C, 0xAB6F, 3, false, false},
	{0xAB70, 0xABE2, 2, false, false},
	{0xABE3, 0xABEA, 3, false, false},
	{0xABEB, 0xABEB, 2, false, false},
	{0xABEC, 0xABEF, 3, false, false},
	{0xABF0, 0xABF9, 2, false, false},
	{0xABFA, 0xABFF, 3, false, false},
	{0xAC00, 0xD7A3, 4, false, false},
	{0xD7A4, 0xD7AF, 3, false, false},
	{0xD7B0, 0xD7C6, 2, false, false},
	{0xD7C7, 0xD7CA, 3, false, false},
	{0xD7CB, 0xD7FB, 2, false, false},
	{0xD7FC, 0xD7FF, 3, false, false},
	{0xD800, 0xDFFF, 1, false, false},
	{0xE000, 0xF8FF, 2, true, false},
	{0xF900, 0xFA6D, 4, false, false},
	{0xFA6E, 0xFA6F, 5, false, false},
	{0xFA70, 0xFAD9, 4, false, false},
	{0xFADA, 0xFAFF, 5, false, false},
	{0xFB00, 0xFB06, 2, false, false},
	{0xFB07, 0xFB12, 3, false, false},
	{0xFB13, 0xFB17, 2, false, false},
	{0xFB18, 0xFB1C, 3, false, false},
	{0xFB1D, 0xFB1D, 2, false, false},
	{0xFB1E, 0xFB1E, 3, false, false},
	{0xFB1F, 0xFB36, 2, false, false},
	{0xFB37, 0xFB37, 3, false, false},
	{0xFB38, 0xFB3C, 2, false, false},
	{0xFB3D, 0xFB3D, 3, false, false},
	{0xFB3E, 0xFB3E, 2, false, false},
	{0xFB3F, 0xFB3F, 3, false, false},
	{0xFB40, 0xFB41, 2, false, false},
	{0xFB42, 0xFB42, 3, false, false},
	{0xFB43, 0xFB44, 2, false, false},
	{0xFB45, 0xFB45, 3, false, false},
	{0xFB46, 0xFBC2, 2, false, false},
	{0xFBC3, 0xFBD2, 3, false, false},
	{0xFBD3, 0xFD8F, 2, false, false},
	{0xFD90, 0xFD91, 3, false, false},
	{0xFD92, 0xFDC7, 2, false, false},
	{0xFDC8, 0xFDCE, 3, false, false},
	{0xFDCF, 0xFDCF, 2, false, false},
	{0xFDD0, 0xFDEF, 3, false, false},
	{0xFDF0, 0xFDFF, 2, false, false},
	{0xFE00, 0xFE0F, 3, true, false},
	{0xFE10, 0xFE19, 4, false, false},
	{0xFE1A, 0xFE1F, 3, false, false},
	{0xFE20, 0xFE2F, 1, false, false},
	{0xFE30, 0xFE52, 4, false, false},
	{0xFE53, 0xFE53, 3, false, false},
	{0xFE54, 0xFE66, 4, false, false},
	{0xFE67, 0xFE67, 3, false, false},
	{0xFE68, 0xFE6B, 4, false, false},
	{0xFE6C, 0xFE6F, 3, false, false},
	{0xFE70, 0xFE74, 2, false, false},
	{0xFE75, 0xFE75, 3, false, false},
	{0xFE76, 0xFEFC, 2, false, false},
	{0xFEFD, 0xFF00, 3, false, false},
	{0xFF01, 0xFF60, 4, false, false},
	{0xFF61, 0xFFBE, 2, false, false},
	{0xFFBF, 0xFFC1, 3, false, false},
	{0xFFC2, 0xFFC7, 2, false, false},
	{0xFFC8, 0xFFC9, 3, false, false},
	{0xFFCA, 0xFFCF, 2, false, false},
	{0xFFD0, 0xFFD1, 3, false, false},
	{0xFFD2, 0xFFD7, 2, false, false},
	{0xFFD8, 0xFFD9, 3, false, false},
	{0xFFDA, 0xFFDC, 2, false, false},
	{0xFFDD, 0xFFDF, 3, false, false},
	{0xFFE0, 0xFFE6, 4, false, false},
	{0xFFE7, 0xFFE7, 3, false, false},
	{0xFFE8, 0xFFEE, 2, false, false},
	{0xFFEF, 0xFFFB, 3, false, false},
	{0xFFFC, 0xFFFC, 2, false, false},
	{0xFFFD, 0xFFFD, 1, true, false},
	{0xFFFE, 0xFFFF, 3, false, false},
	{0x10000, 0x1000B, 2, false, false},
	{0x1000C, 0x1000C, 3, false, false},
	{0x1000D, 0x10026, 2, false, false},
	{0x10027, 0x10027, 3, false, false},
	{0x10028, 0x1003A, 2, false, false},
	{0x1003B, 0x1003B, 3, false, false},
	{0x1003C, 0x1003D, 2, false, false},
	{0x1003E, 0x1003E, 3, false, false},
	{0x1003F, 0x1004D, 2, false, false},
	{0x1004E, 0x1004F, 3, false, false},
	{0x10050, 0x1005D, 2, false, false},
	{0x1005E, 0x1007F, 3, false, false},
	{0x10080, 0x100FA, 2, false, false},
	{0x100FB, 0x100FF, 3, false, false},
	{0x10100, 0x10102, 2, false, false},
	{0x10103, 0x10106, 3, false, false},
	{0x10107, 0x10133, 2, false, false},
	{0x10134, 0x10136, 3, false, false},
	{0x10137, 0x1018E, 2, false, false},
	{0x1018F, 0x1018F, 3, false, false},
	{0x10190, 0x1019C, 2, false, false},
	{0x1019D, 0x1019F, 3, false, false},
	{0x101A0, 0x101A0, 2, false, false},
	{0x101A1, 0x101CF, 3, false, false},
	{0x101D0, 0x101FC, 2, false, false},
	{0x101FD, 0x101FD, 1, false, false},
	{0x101FE, 0x1027F, 3, false, false},
	{0x10280, 0x1029C, 2, false, false},
	{0x1029D, 0x1029F, 3, false, false},
	{0x102A0, 0x102D0, 2, false, false},
	{0x102D1, 0x102E0, 3, false, false},
	{0x102E1, 0x102FB, 2, false, false},
	{0x102FC, 0x102FF, 3, false, false},
	{0x10300, 0x10323, 2, false, false},
	{0x10324, 0x1032C, 3, false, false},
	{0x1032D, 0x1034A, 2, false, false},
	{0x1034B, 0x1034F, 3, false, false},
	{0x10350, 0x10375, 2, false, false},
	{0x10376, 0x1037A, 1, false, false},
	{0x1037B, 0x1037F, 3, false, false},
	{0x10380, 0x1039D, 2, false, false},
	{0x1039E, 0x1039E, 3, false, false},
	{0x1039F, 0x103C3, 2, false, false},
	{0x103C4, 0x103C7, 3, false, false},
	{0x103C8, 0x103D5, 2, false, false},
	{0x103D6, 0x103FF, 3, false, false},
	{0x10400, 0x1049D, 2, false, false},
	{0x1049E, 0x1049F, 3, false, false},
	{0x104A0, 0x104A9, 2, false, false},
	{0x104AA, 0x104AF, 3, false, false},
	{0x104B0, 0x104D3, 2, false, false},
	{0x104D4, 0x104D7, 3, false, false},
	{0x104D8, 0x104FB, 2, false, false},
	{0x104FC, 0x104FF, 3, false, false},
	{0x10500, 0x10527, 2, false, false},
	{0x10528, 0x1052F, 3, false, false},
	{0x10530, 0x10563, 2, false, false},
	{0x10564, 0x1056E, 3, false, false},
	{0x1056F, 0x1057A, 2, false, false},
	{0x1057B, 0x1057B, 3, false, false},
	{0x1057C, 0x1058A, 2, false, false},
	{0x1058B, 0x1058B, 3, false, false},
	{0x1058C, 0x10592, 2, false, false},
	{0x10593, 0x10593, 3, false, false},
	{0x10594, 0x10595, 2, false, false},
	{0x10596, 0x10596, 3, false, false},
	{0x10597, 0x105A1, 2, false, false},
	{0x105A2, 0x105A2, 3, false, false},
	{0x105A3, 0x105B1, 2, false, false},
	{0x105B2, 0x105B2, 3, false, false},
	{0x105B3, 0x105B9, 2, false, false},
	{0x105BA, 0x105BA, 3, false, false},
	{0x105BB, 0x105BC, 2, false, false},
	{0x105BD, 0x105FF, 3, false, false},
	{0x10600, 0x10736, 2, false, false},
	{0x10737, 0x1073F, 3, false, false},
	{0x10740, 0x10755, 2, false, false},
	{0x10756, 0x1075F, 3, false, false},
	{0x10760, 0x10767, 2, false, false},
	{0x10768, 0x1077F, 3, false, false},
	{0x10780, 0x10785, 2, false, false},
	{0x10786, 0x10786, 3, false, false},
	{0x10787, 0x107B0, 2, false, false},
	{0x107B1, 0x107B1, 3, false, false},
	{0x107B2, 0x107BA, 2, false, false},
	{0x107BB, 0x107FF, 3, false, false},
	{0x10800, 0x10805, 2, false, false},
	{0x10806, 0x10807, 3, false, false},
	{0x10808, 0x10808, 2, false, false},
	{0x10809, 0x10809, 3, false, false},
	{0x1080A, 0x10835, 2, false, false},
	{0x10836, 0x10836, 3, false, false},
	{0x10837, 0x10838, 2, false, false},
	{0x10839, 0x1083B, 3, false, false},
	{0x1083C, 0x1083C, 2, false, false},
	{0x1083D, 0x1083E, 3, false, false},
	{0x1083F, 0x10855, 2, false, false},
	{0x10856, 0x10856, 3, false, false},
	{0x10857, 0x1089E, 2, false, false},
	{0x1089F, 0x108A6, 3, false, false},
	{0x108A7, 0x108AF, 2, false, false},
	{0x108B0, 0x108DF, 3, false, false},
	{0x108E0, 0x108F2, 2, false, false},
	{0x108F3, 0x108F3, 3, false, false},
	{0x108F4, 0x108F5, 2, false, false},
	{0x108F6, 0x108FA, 3, false, false},
	{0x108FB, 0x1091B, 2, false, false},
	{0x1091C, 0x1091E, 3, false, false},
	{0x1091F, 0x10939, 2, false, false},
	{0x1093A, 0x1093E, 3, false, false},
	{0x1093F, 0x1093F, 2, false, false},
	{0x10940, 0x1097F, 3, false, false},
	{0x10980, 0x109B7, 2, false, false},
	{0x109B8, 0x109BB, 3, false, false},
	{0x109BC, 0x109CF, 2, false, false},
	{0x109D0, 0x109D1, 3, false, false},
	{0x109D2, 0x10A00, 2, false, false},
	{0x10A01, 0x10A0F, 3, false, false},
	{0x10A10, 0x10A13, 2, false, false},
	{0x10A14, 0x10A14, 3, false, false},
	{0x10A15, 0x10A17, 2, false, false},
	{0x10A18, 0x10A18, 3, false, false},
	{0x10A19, 0x10A35, 2, false, false},
	{0x10A36, 0x10A3F, 3, false, false},
	{0x10A40, 0x10A48, 2, false, false},
	{0x10A49, 0x10A4F, 3, false, false},
	{0x10A50, 0x10A58, 2, false, false},
	{0x10A59, 0x10A5F, 3, false, false},
	{0x10A60, 0x10A9F, 2, false, false},
	{0x10AA0, 0x10ABF, 3, false, false},
	{0x10AC0, 0x10AE4, 2, false, false},
	{0x10AE5, 0x10AEA, 3, false, false},
	{0x10AEB, 0x10AF6, 2, false, false},
	{0x10AF7, 0x10AFF, 3, false, false},
	{0x10B00, 0x10B35, 2, false, false},
	{0x10B36, 0x10B38, 3, false, false},
	{0x10B39, 0x10B55, 2, false, false},
	{0x10B56, 0x10B57, 3, false, false},
	{0x10B58, 0x10B72, 2, false, false},
	{0x10B73, 0x10B77, 3, false, false},
	{0x10B78, 0x10B91, 2, false, false},
	{0x10B92, 0x10B98, 3, false, false},
	{0x10B99, 0x10B9C, 2, false, false},
	{0x10B9D, 0x10BA8, 3, false, false},
	{0x10BA9, 0x10BAF, 2, false, false},
	{0x10BB0, 0x10BFF, 3, false, false},
	{0x10C00, 0x10C48, 2, false, false},
	{0x10C49, 0x10C7F, 3, false, false},
	{0x10C80, 0x10CB2, 2, false, false},
	{0x10CB3, 0x10CBF, 3, false, false},
	{0x10CC0, 0x10CF2, 2, false, false},
	{0x10CF3, 0x10CF9, 3, false, false},
	{0x10CFA, 0x10D23, 2, false, false},
	{0x10D24, 0x10D2F, 3, false, false},
	{0x10D30, 0x10D39, 2, false, false},
	{0x10D3A, 0x10E5F, 3, false, false},
	{0x10E60, 0x10E7E, 2, false, false},
	{0x10E7F, 0x10E7F, 3, false, false},
	{0x10E80, 0x10EA9, 2, false, false},
	{0x10EAA, 0x10EAA, 3, false, false},
	{0x10EAB, 0x10EAC, 1, false, false},
	{0x10EAD, 0x10EAD, 2, false, false},
	{0x10EAE, 0x10EAF, 3, false, false},
	{0x10EB0, 0x10EB1, 2, false, false},
	{0x10EB2, 0x10EFF, 3, false, false},
	{0x10F00, 0x10F27, 2, false, false},
	{0x10F28, 0x10F2F, 3, false, false},
	{0x10F30, 0x10F45, 2, false, false},
	{0x10F46, 0x10F50, 1, false, false},
	{0x10F51, 0x10F59, 2, false, false},
	{0x10F5A, 0x10F6F, 3, false, false},
	{0x10F70, 0x10F81, 2, false, false},
	{0x10F82, 0x10F85, 1, false, false},
	{0x10F86, 0x10F89, 2, false, false},
	{0x10F8A, 0x10FAF, 3, false, false},
	{0x10FB0, 0x10FCB, 2, false, false},
	{0x10FCC, 0x10FDF, 3, false, false},
	{0x10FE0, 0x10FF6, 2, false, false},
	{0x10FF7, 0x11002, 3, false, false},
	{0x11003, 0x11037, 2, false, false},
	{0x11038, 0x11046, 3, false, false},
	{0x11047, 0x1104D, 2, false, false},
	{0x1104E, 0x11051, 3, false, false},
	{0x11052, 0x1106F, 2, false, false},
	{0x11070, 0x11070, 3, false, false},
	{0x11071, 0x11072, 2, false, false},
	{0x11073, 0x11074, 3, false, false},
	{0x11075, 0x11075, 2, false, false},
	{0x11076, 0x11082, 3, false, false},
	{0x11083, 0x110AF, 2, false, false},
	{0x110B0, 0x110BA, 3, false, false},
	{0x110BB, 0x110BC, 2, false, false},
	{0x110BD, 0x110BD, 3, false, false},
	{0x110BE, 0x110C1, 2, false, false},
	{0x110C2, 0x110CF, 3, false, false},
	{0x110D0, 0x110E8, 2, false, false},
	{0x110E9, 0x110EF, 3, false, false},
	{0x110F0, 0x110F9, 2, false, false},
	{0x110FA, 0x11102, 3, false, false},
	{0x11103, 0x11126, 2, false, false},
	{0x11127, 0x11135, 3, false, false},
	{0x11136, 0x11144, 2, false, false},
	{0x11145, 0x11146, 3, false, false},
	{0x11147, 0x11147, 2, false, false},
	{0x11148, 0x1114F, 3, false, false},
	{0x11150, 0x11172, 2, false, false},
	{0x11173, 0x11173, 3, false, false},
	{0x11174, 0x11176, 2, false, false},
	{0x11177, 0x11182, 3, false, false},
	{0x11183, 0x111B2, 2, false, false},
	{0x111B3, 0x111C0, 3, false, false},
	{0x111C1, 0x111C8, 2, false, false},
	{0x111C9, 0x111CC, 3, false, false},
	{0x111CD, 0x111CD, 2, false, false},
	{0x111CE, 0x111CF, 3, false, false},
	{0x111D0, 0x111DF, 2, false, false},
	{0x111E0, 0x111E0, 3, false, false},
	{0x111E1, 0x111F4, 2, false, false},
	{0x111F5, 0x111FF, 3, false, false},
	{0x11200, 0x11211, 2, false, false},
	{0x11212, 0x11212, 3, false, false},
	{0x11213, 0x1122B, 2, false, false},
	{0x1122C, 0x11237, 3, false, false},
	{0x11238, 0x1123D, 2, false, false},
	{0x1123E, 0x1123E, 3, false, false},
	{0x1123F, 0x11240, 2, false, false},
	{0x11241, 0x1127F, 3, false, false},
	{0x11280, 0x11286, 2, false, false},
	{0x11287, 0x11287, 3, false, false},
	{0x11288, 0x11288, 2, false, false},
	{0x11289, 0x11289, 3, false, false},
	{0x1128A, 0x1128D, 2, false, false},
	{0x1128E, 0x1128E, 3, false, false},
	{0x1128F, 0x1129D, 2, false, false},
	{0x1129E, 0x1129E, 3, false, false},
	{0x1129F, 0x112A9, 2, false, false},
	{0x112AA, 0x112AF, 3, false, false},
	{0x112B0, 0x112DE, 2, false, false},
	{0x112DF, 0x112EF, 3, false, false},
	{0x112F0, 0x112F9, 2, false, false},
	{0x112FA, 0x112FF, 3, false, false},
	{0x11300, 0x11300, 1, false, false},
	{0x11301, 0x11304, 3, false, false},
	{0x11305, 0x1130C, 2, false, false},
	{0x1130D, 0x1130E, 3, false, false},
	{0x1130F, 0x11310, 2, false, false},
	{0x11311, 0x11312, 3, false, false},
	{0x11313, 0x11328, 2, false, false},
	{0x11329, 0x11329, 3, false, false},
	{0x1132A, 0x11330, 2, false, false},
	{0x11331, 0x11331, 3, false, false},
	{0x11332, 0x11333, 2, false, false},
	{0x11334, 0x11334, 3, false, false},
	{0x11335, 0x11339, 2, false, false},
	{0x1133A, 0x1133A, 3, false, false},
	{0x1133B, 0x1133B, 1, false, false},
	{0x1133C, 0x1133C, 3, false, false},
	{0x1133D, 0x1133D, 2, false, false},
	{0x1133E, 0x1134F, 3, false, false},
	{0x11350, 0x11350, 2, false, false},
	{0x11351, 0x1135C, 3, false, false},
	{0x1135D, 0x11361, 2, false, false},
	{0x11362, 0x11365, 3, false, false},
	{0x11366, 0x1136C, 1, false, false},
	{0x1136D, 0x1136F, 3, false, false},
	{0x11370, 0x11374, 1, false, false},
	{0x11375, 0x113FF, 3, false, false},
	{0x11400, 0x11434, 2, false, false},
	{0x11435, 0x11446, 3, false, false},
	{0x11447, 0x1145B, 2, false, false},
	{0x1145C, 0x1145C, 3, false, false},
	{0x1145D, 0x1145D, 2, false, false},
	{0x1145E, 0x1145E, 3, false, false},
	{0x1145F, 0x11461, 2, false, false},
	{0x11462, 0x1147F, 3, false, false},
	{0x11480, 0x114AF, 2, false, false},
	{0x114B0, 0x114C3, 3, false, false},
	{0x114C4, 0x114C7, 2, false, false},
	{0x114C8, 0x114CF, 3, false, false},
	{0x114D0, 0x114D9, 2, false, false},
	{0x114DA, 0x1157F, 3, false, false},
	{0x11580, 0x115AE, 2, false, false},
	{0x115AF, 0x115C0, 3, false, false},
	{0x115C1, 0x115DB, 2, false, false},
	{0x115DC, 0x115FF, 3, false, false},
	{0x11600, 0x1162F, 2, false, false},
	{0x11630, 0x11640, 3, false, false},
	{0x11641, 0x11644, 2, false, false},
	{0x11645, 0x1164F, 3, false, false},
	{0x11650, 0x11659, 2, false, false},
	{0x1165A, 0x1165F, 3, false, false},
	{0x11660, 0x1166C, 2, false, false},
	{0x1166D, 0x1167F, 3, false, false},
	{0x11680, 0x116AA, 2, false, false},
	{0x116AB, 0x116B7, 3, false, false},
	{0x116B8, 0x116B9, 2, false, false},
	{0x116BA, 0x116BF, 3, false, false},
	{0x116C0, 0x116C9, 2, false, false},
	{0x116CA, 0x116FF, 3, false, false},
	{0x11700, 0x1171A, 2, false, false},
	{0x1171B, 0x1172F, 3, false, false},
	{0x11730, 0x11746, 2, false, false},
	{0x11747, 0x117FF, 3, false, false},
	{0x11800, 0x1182B, 2, false, false},
	{0x1182C, 0x1183A, 3, false, false},
	{0x1183B, 0x1183B, 2, false, false},
	{0x1183C, 0x1189F, 3, false, false},
	{0x118A0, 0x118F2, 2, false, false},
	{0x118F3, 0x118FE, 3, false, false},
	{0x118FF, 0x11906, 2, false, false},
	{0x11907, 0x11908, 3, false, false},
	{0x11909, 0x11909, 2, false, false},
	{0x1190A, 0x1190B, 3, false, false},
	{0x1190C, 0x11913, 2, false, false},
	{0x11914, 0x11914, 3, false, false},
	{0x11915, 0x11916, 2, false, false},
	{0x11917, 0x11917, 3, false, false},
	{0x11918, 0x1192F, 2, false, false},
	{0x11930, 0x1193E, 3, false, false},
	{0x1193F, 0x1193F, 2, false, false},
	{0x11940, 0x11940, 3, false, false},
	{0x11941, 0x11941, 2, false, false},
	{0x11942, 0x11943, 3, false, false},
	{0x11944, 0x11946, 2, false, false},
	{0x11947, 0x1194F, 3, false, false},
	{0x11950, 0x11959, 2, false, false},
	{0x1195A, 0x1199F, 3, false, false},
	{0x119A0, 0x119A7, 2, false, false},
	{0x119A8, 0x119A9, 3, false, false},
	{0x119AA, 0x119D0, 2, false, false},
	{0x119D1, 0x119E0, 3, false, false},
	{0x119E1, 0x119E3, 2, false, false},
	{0x119E4, 0x119FF, 3, false, false},
	{0x11A00, 0x11A00, 2, false, false},
	{0x11A01, 0x11A0A, 3, false, false},
	{0x11A0B, 0x11A32, 2, false, false},
	{0x11A33, 0x11A39, 3, false, false},
	{0x11A3A, 0x11A3A, 2, false, false},
	{0x11A3B, 0x11A3E, 3, false, false},
	{0x11A3F, 0x11A46, 2, false, false},
	{0x11A47, 0x11A4F, 3, false, false},
	{0x11A50, 0x11A50, 2, false, false},
	{0x11A51, 0x11A5B, 3, false, false},
	{0x11A5C, 0x11A89, 2, false, false},
	{0x11A8A, 0x11A99, 3, false, false},
	{0x11A9A, 0x11AA2, 2, false, false},
	{0x11AA3, 0x11AAF, 3, false, false},
	{0x11AB0, 0x11AF8, 2, false, false},
	{0x11AF9, 0x11AFF, 3, false, false},
	{0x11B00, 0x11B09, 2, false, false},
	{0x11B0A, 0x11BFF, 3, false, false},
	{0x11C00, 0x11C08, 2, false, false},
	{0x11C09, 0x11C09, 3, false, false},
	{0x11C0A, 0x11C2E, 2, false, false},
	{0x11C2F, 0x11C3F, 3, false, false},
	{0x11C40, 0x11C45, 2, false, false},
	{0x11C46, 0x11C4F, 3, false, false},
	{0x11C50, 0x11C6C, 2, false, false},
	{0x11C6D, 0x11C6F, 3, false, false},
	{0x11C70, 0x11C8F, 2, false, false},
	{0x11C90, 0x11CFF, 3, false, false},
	{0x11D00, 0x11D06, 2, false, false},
	{0x11D07, 0x11D07, 3, false, false},
	{0x11D08, 0x11D09, 2, false, false},
	{0x11D0A, 0x11D0A, 3, false, false},
	{0x11D0B, 0x11D30, 2, false, false},
	{0x11D31, 0x11D45, 3, false, false},
	{0x11D46, 0x11D46, 2, false, false},
	{0x11D47, 0x11D4F, 3, false, false},
	{0x11D50, 0x11D59, 2, false, false},
	{0x11D5A, 0x11D5F, 3, false, false},
	{0x11D60, 0x11D65, 2, false, false},
	{0x11D66, 0x11D66, 3, false, false},
	{0x11D67, 0x11D68, 2, false, false},
	{0x11D69, 0x11D69, 3, false, false},
	{0x11D6A, 0x11D89, 2, false, false},
	{0x11D8A, 0x11D97, 3, false, false},
	{0x11D98, 0x11D98, 2, false, false},
	{0x11D99, 0x11D9F, 3, false, false},
	{0x11DA0, 0x11DA9, 2, false, false},
	{0x11DAA, 0x11EDF, 3, false, false},
	{0x11EE0, 0x11EF2, 2, false, false},
	{0x11EF3, 0x11EF6, 3, false, false},
	{0x11EF7, 0x11EF8, 2, false, false},
	{0x11EF9, 0x11F01, 3, false, false},
	{0x11F02, 0x11F02, 2, false, false},
	{0x11F03, 0x11F03, 3, false, false},
	{0x11F04, 0x11F10, 2, false, false},
	{0x11F11, 0x11F11, 3, false, false},
	{0x11F12, 0x11F33, 2, false, false},
	{0x11F34, 0x11F42, 3, false, false},
	{0x11F43, 0x11F59, 2, false, false},
	{0x11F5A, 0x11FAF, 3, false, false},
	{0x11FB0, 0x11FB0, 2, false, false},
	{0x11FB1, 0x11FBF, 3, false, false},
	{0x11FC0, 0x11FF1, 2, false, false},
	{0x11FF2, 0x11FFE, 3, false, false},
	{0x11FFF, 0x12399, 2, false, false},
	{0x1239A, 0x123FF, 3, false, false},
	{0x12400, 0x1246E, 2, false, false},
	{0x1246F, 0x1246F, 3, false, false},
	{0x12470, 0x12474, 2, false, false},
	{0x12475, 0x1247F, 3, false, false},
	{0x12480, 0x12543, 2, false, false},
	{0x12544, 0x12F8F, 3, false, false},
	{0x12F90, 0x12FF2, 2, false, false},
	{0x12FF3, 0x12FFF, 3, false, false},
	{0x13000, 0x1342F, 2, false, false},
	{0x13430, 0x13440, 3, false, false},
	{0x13441, 0x13446, 2, false, false},
	{0x13447, 0x143FF, 3, false, false},
	{0x14400, 0x14646, 2, false, false},
	{0x14647, 0x167FF, 3, false, false},
	{0x16800, 0x16A38, 2, false, false},
	{0x16A39, 0x16A3F, 3, false, false},
	{0x16A40, 0x16A5E, 2, false, false},
	{0x16A5F, 0x16A5F, 3, false, false},
	{0x16A60, 0x16A69, 2, false, false},
	{0x16A6A, 0x16A6D, 3, false, false},
	{0x16A6E, 0x16ABE, 2, false, false},
	{0x16ABF, 0x16ABF, 3, false, false},
	{0x16AC0, 0x16AC9, 2, false, false},
	{0x16ACA, 0x16ACF, 3, false, false},
	{0x16AD0, 0x16AED, 2, false, false},
	{0x16AEE, 0x16AEF, 3, false, false},
	{0x16AF0, 0x16AF4, 1, false, false},
	{0x16AF5, 0x16AF5, 2, false, false},
	{0x16AF6, 0x16AFF, 3, false, false},
	{0x16B00, 0x16B2F, 2, false, false},
	{0x16B30, 0x16B36, 3, false, false},
	{0x16B37, 0x16B45, 2, false, false},
	{0x16B46, 0x16B4F, 3, false, false},
	{0x16B50, 0x16B59, 2, false, false},
	{0x16B5A, 0x16B5A, 3, false, false},
	{0x16B5B, 0x16B61, 2, false, false},
	{0x16B62, 0x16B62, 3, false, false},
	{0x16B63, 0x16B77, 2, false, false},
	{0x16B78, 0x16B7C, 3, false, false},
	{0x16B7D, 0x16B8F, 2, false, false},
	{0x16B90, 0x16E3F, 3, false, false},
	{0x16E40, 0x16E9A, 2, false, false},
	{0x16E9B, 0x16EFF, 3, false, false},
	{0x16F00, 0x16F4A, 2, false, false},
	{0x16F4B, 0x16F4F, 3, false, false},
	{0x16F50, 0x16F50, 2, false, false},
	{0x16F51, 0x16F92, 3, false, false},
	{0x16F93, 0x16F9F, 2, false, false},
	{0x16FA0, 0x16FDF, 3, false, false},
	{0x16FE0, 0x16FE3, 4, false, false},
	{0x16FE4, 0x16FE4, 5, false, false},
	{0x16FE5, 0x16FEF, 3, false, false},
	{0x16FF0, 0x16FF1, 5, false, false},
	{0x16FF2, 0x16FFF, 3, false, false},
	{0x17000, 0x187F7, 4, false, false},
	{0x187F8, 0x187FF, 3, false, false},
	{0x18800, 0x18CD5, 4, false, false},
	{0x18CD6, 0x18CFF, 3, false, false},
	{0x18D00, 0x18D08, 4, false, false},
	{0x18D09, 0x1AFEF, 3, false, false},
	{0x1AFF0, 0x1AFF3, 4, false, false},
	{0x1AFF4, 0x1AFF4, 3, false, false},
	{0x1AFF5, 0x1AFFB, 4, false, false},
	{0x1AFFC, 0x1AFFC, 3, false, false},
	{0x1AFFD, 0x1AFFE, 4, false, false},
	{0x1AFFF, 0x1AFFF, 3, false, false},
	{0x1B000, 0x1B122, 4, false, false},
	{0x1B123, 0x1B131, 3, false, false},
	{0x1B132, 0x1B132, 4, false, false},
	{0x1B133, 0x1B14F, 3, false, false},
	{0x1B150, 0x1B152, 4, false, false},
	{0x1B153, 0x1B154, 3, false, false},
	{0x1B155, 0x1B155, 4, false, false},
	{0x1B156, 0x1B163, 3, false, false},
	{0x1B164, 0x1B167, 4, false, false},
	{0x1B168, 0x1B16F, 3, false, false},
	{0x1B170, 0x1B2FB, 4, false, false},
	{0x1B2FC, 0x1BBFF, 3, false, false},
	{0x1BC00, 0x1BC6A, 2, false, false},
	{0x1BC6B, 0x1BC6F, 3, false, false},
	{0x1BC70, 0x1BC7C, 2, false, false},
	{0x1BC7D, 0x1BC7F, 3, false, false},
	{0x1BC80, 0x1BC88, 2, false, false},
	{0x1BC89, 0x1BC8F, 3, false, false},
	{0x1BC90, 0x1BC99, 2, false, false},
	{0x1BC9A, 0x1BC9B, 3, false, false},
	{0x1BC9C, 0x1BC9C, 2, false, false},
	{0x1BC9D, 0x1BC9E, 3, false, false},
	{0x1BC9F, 0x1BC9F, 2, false, false},
	{0x1BCA0, 0x1CEFF, 3, false, false},
	{0x1CF00, 0x1CF2D, 1, false, false},
	{0x1CF2E, 0x1CF2F, 3, false, false},
	{0x1CF30, 0x1CF41, 1, false, false},
	{0x1CF42, 0x1CF4F, 3, false, false},
	{0x1CF50, 0x1CFC3, 2, false, false},
	{0x1CFC4, 0x1CFFF, 3, false, false},
	{0x1D000, 0x1D0F5, 2, false, false},
	{0x1D0F6, 0x1D0FF, 3, false, false},
	{0x1D100, 0x1D126, 2, false, false},
	{0x1D127, 0x1D128, 3, false, false},
	{0x1D129, 0x1D164, 2, false, false},
	{0x1D165, 0x1D169, 1, false, false},
	{0x1D16A, 0x1D16C, 2, false, false},
	{0x1D16D, 0x1D172, 1, false, false},
	{0x1D173, 0x1D17A, 3, false, false},
	{0x1D17B, 0x1D182, 1, false, false},
	{0x1D183, 0x1D184, 2, false, false},
	{0x1D185, 0x1D18B, 1, false, false},
	{0x1D18C, 0x1D1A9, 2, false, false},
	{0x1D1AA, 0x1D1AD, 1, false, false},
	{0x1D1AE, 0x1D1EA, 2, false, false},
	{0x1D1EB, 0x1D1FF, 3, false, false},
	{0x1D200, 0x1D241, 2, false, false},
	{0x1D242, 0x1D244, 1, false, false},
	{0x1D245, 0x1D245, 2, false, false},
	{0x1D246, 0x1D2BF, 3, false, false},
	{0x1D2C0, 0x1D2D3, 2, false, false},
	{0x1D2D4, 0x1D2DF, 3, false, false},
	{0x1D2E0, 0x1D2F3, 2, false, false},
	{0x1D2F4, 0x1D2FF, 3, false, false},
	{0x1D300, 0x1D356, 2, false, false},
	{0x1D357, 0x1D35F, 3, false, false},
	{0x1D360, 0x1D378, 2, false, false},
	{0x1D379, 0x1D3FF, 3, false, false},
	{0x1D400, 0x1D454, 2, false, false},
	{0x1D455, 0x1D455, 3, false, false},
	{0x1D456, 0x1D49C, 2, false, false},
	{0x1D49D, 0x1D49D, 3, false, false},
	{0x1D49E, 0x1D49F, 2, false, false},
	{0x1D4A0, 0x1D4A1, 3, false, false},
	{0x1D4A2, 0x1D4A2, 2, false, false},
	{0x1D4A3, 0x1D4A4, 3, false, false},
	{0x1D4A5, 0x1D4A6, 2, false, false},
	{0x1D4A7, 0x1D4A8, 3, false, false},
	{0x1D4A9, 0x1D4AC, 2, false, false},
	{0x1D4AD, 0x1D4AD, 3, false, false},
	{0x1D4AE, 0x1D4B9, 2, false, false},
	{0x1D4BA, 0x1D4BA, 3, false, false},
	{0x1D4BB, 0x1D4BB, 2, false, false},
	{0x1D4BC, 0x1D4BC, 3, false, false},
	{0x1D4BD, 0x1D4C3, 2, false, false},
	{0x1D4C4, 0x1D4C4, 3, false, false},
	{0x1D4C5, 0x1D505, 2, false, false},
	{0x1D506, 0x1D506, 3, false, false},
	{0x1D507, 0x1D50A, 2, false, false},
	{0x1D50B, 0x1D50C, 3, false, false},
	{0x1D50D, 0x1D514, 2, false, false},
	{0x1D515, 0x1D515, 3, false, false},
	{0x1D516, 0x1D51C, 2, false, false},
	{0x1D51D, 0x1D51D, 3, false, false},
	{0x1D51E, 0x1D539, 2, false, false},
	{0x1D53A, 0x1D53A, 3, false, false},
	{0x1D53B, 0x1D53E, 2, false, false},
	{0x1D53F, 0x1D53F, 3, false, false},
	{0x1D540, 0x1D544, 2, false, false},
	{0x1D545, 0x1D545, 3, false, false},
	{0x1D546, 0x1D546, 2, false, false},
	{0x1D547, 0x1D549, 3, false, false},
	{0x1D54A, 0x1D550, 2, false, false},
	{0x1D551, 0x1D551, 3, false, false},
	{0x1D552, 0x1D6A5, 2, false, false},
	{0x1D6A6, 0x1D6A7, 3, false, false},
	{0x1D6A8, 0x1D7CB, 2, false, false},
	{0x1D7CC, 0x1D7CD, 3, false, false},
	{0x1D7CE, 0x1D9FF, 2, false, false},
	{0x1DA00, 0x1DA36, 3, false, false},
	{0x1DA37, 0x1DA3A, 2, false, false},
	{0x1DA3B, 0x1DA6C, 3, false, false},
	{0x1DA6D, 0x1DA74, 2, false, false},
	{0x1DA75, 0x1DA75, 3, false, false},
	{0x1DA76, 0x1DA83, 2, false, false},
	{0x1DA84, 0x1DA84, 3, false, false},
	{0x1DA85, 0x1DA8B, 2, false, false},
	{0x1DA8C, 0x1DEFF, 3, false, false},
	{0x1DF00, 0x1DF1E, 2, false, false},
	{0x1DF1F, 0x1DF24, 3, false, false},
	{0x1DF25, 0x1DF2A, 2, false, false},
	{0x1DF2B, 0x1DFFF, 3, false, false},
	{0x1E000, 0x1E006, 1, false, false},
	{0x1E007, 0x1E007, 3, false, false},
	{0x1E008, 0x1E018, 1, false, false},
	{0x1E019, 0x1E01A, 3, false, false},
	{0x1E01B, 0x1E021, 1, false, false},
	{0x1E022, 0x1E022, 3, false, false},
	{0x1E023, 0x1E024, 1, false, false},
	{0x1E025, 0x1E025, 3, false, false},
	{0x1E026, 0x1E02A, 1, false, false},
	{0x1E02B, 0x1E02F, 3, false, false},
	{0x1E030, 0x1E06D, 2, false, false},
	{0x1E06E, 0x1E08E, 3, false, false},
	{0x1E08F, 0x1E08F, 1, false, false},
	{0x1E090, 0x1E0FF, 3, false, false},
	{0x1E100, 0x1E12C, 2, false, false},
	{0x1E12D, 0x1E136, 3, false, false},
	{0x1E137, 0x1E13D, 2, false, false},
	{0x1E13E, 0x1E13F, 3, false, false},
	{0x1E140, 0x1E149, 2, false, false},
	{0x1E14A, 0x1E14D, 3, false, false},
	{0x1E14E, 0x1E14F, 2, false, false},
	{0x1E150, 0x1E28F, 3, false, false},
	{0x1E290, 0x1E2AD, 2, false, false},
	{0x1E2AE, 0x1E2BF, 3, false, false},
	{0x1E2C0, 0x1E2EB, 2, false, false},
	{0x1E2EC, 0x1E2EF, 3, false, false},
	{0x1E2F0, 0x1E2F9, 2, false, false},
	{0x1E2FA, 0x1E2FE, 3, false, false},
	{0x1E2FF, 0x1E2FF, 2, false, false},
	{0x1E300, 0x1E4CF, 3, false, false},
	{0x1E4D0, 0x1E4EB, 2, false, false},
	{0x1E4EC, 0x1E4EF, 3, false, false},
	{0x1E4F0, 0x1E4F9, 2, false, false},
	{0x1E4FA, 0x1E7DF, 3, false, false},
	{0x1E7E0, 0x1E7E6, 2, false, false},
	{0x1E7E7, 0x1E7E7, 3, false, false},
	{0x1E7E8, 0x1E7EB, 2, false, false},
	{0x1E7EC, 0x1E7EC, 3, false, false},
	{0x1E7ED, 0x1E7EE, 2, false, false},
	{0x1E7EF, 0x1E7EF, 3, false, false},
	{0x1E7F0, 0x1E7FE, 2, false, false},
	{0x1E7FF, 0x1E7FF, 3, false, false},
	{0x1E800, 0x1E8C4, 2, false, false},
	{0x1E8C5, 0x1E8C6, 3, false, false},
	{0x1E8C7, 0x1E8CF, 2, false, false},
	{0x1E8D0, 0x1E8D6, 1, false, false},
	{0x1E8D7, 0x1E8FF, 3, false, false},
	{0x1E900, 0x1E943, 2, false, false},
	{0x1E944, 0x1E94A, 3, false, false},
	{0x1E94B, 0x1E94B, 2, false, false},
	{0x1E94C, 0x1E94F, 3, false, false},
	{0x1E950, 0x1E959, 2, false, false},
	{0x1E95A, 0x1E95D, 3, false, false},
	{0x1E95E, 0x1E95F, 2, false, false},
	{0x1E960, 0x1EC70, 3, false, false},
	{0x1EC71, 0x1ECB4, 2, false, false},
	{0x1ECB5, 0x1ED00, 3, false, false},
	{0x1ED01, 0x1ED3D, 2, false, false},
	{0x1ED3E, 0x1EDFF, 3, false, false},
	{0x1EE00, 0x1EE03, 2, false, false},
	{0x1EE04, 0x1EE04, 3, false, false},
	{0x1EE05, 0x1EE1F, 2, false, false},
	{0x1EE20, 0x1EE20, 3, false, false},
	{0x1EE21, 0x1EE22, 2, false, false},
	{0x1EE23, 0x1EE23, 3, false, false},
	{0x1EE24, 0x1EE24, 2, false, false},
	{0x1EE25, 0x1EE26, 3, false, false},
	{0x1EE27, 0x1EE27, 2, false, false},
	{0x1EE28, 0x1EE28, 3, false, false},
	{0x1EE29, 0x1EE32, 2, false, false},
	{0x1EE33, 0x1EE33, 3, false, false},
	{0x1EE34, 0x1EE37, 2, false, false},
	{0x1EE38, 0x1EE38, 3, false, false},
	{0x1EE39, 0x1EE39, 2, false, false},
	{0x1EE3A, 0x1EE3A, 3, false, false},
	{0x1EE3B, 0x1EE3B, 2, false, false},
	{0x1EE3C, 0x1EE41, 3, false, false},
	{0x1EE42, 0x1EE42, 2, false, false},
	{0x1EE43, 0x1EE46, 3, false, false},
	{0x1EE47, 0x1EE47, 2, false, false},
	{0x1EE48, 0x1EE48, 3, false, false},
	{0x1EE49, 0x1EE49, 2, false, false},
	{0x1EE4A, 0x1EE4A, 3, false, false},
	{0x1EE4B, 0x1EE4B, 2, false, false},
	{0x1EE4C, 0x1EE4C, 3, false, false},
	{0x1EE4D, 0x1EE4F, 2, false, false},
	{0x1EE50, 0x1EE50, 3, false, false},
	{0x1EE51, 0x1EE52, 2, false, false},
	{0x1EE53, 0x1EE53, 3, false, false},
	{0x1EE54, 0x1EE54, 2, false, false},
	{0x1EE55, 0x1EE56, 3, false, false},
	{0x1EE57, 0x1EE57, 2, false, false},
	{0x1EE58, 0x1EE58, 3, false, false},
	{0x1EE59, 0x1EE59, 2, false, false},
	{0x1EE5A, 0x1EE5A, 3, false, false},
	{0x1EE5B, 0x1EE5B, 2, false, false},
	{0x1EE5C, 0x1EE5C, 3, false, false},
	{0x1EE5D, 0x1EE5D, 2, false, false},
	{0x1EE5E, 0x1EE5E, 3, false, false},
	{0x1EE5F, 0x1EE5F, 2, false, false},
	{0x1EE60, 0x1EE60, 3, false, false},
	{0x1EE61, 0x1EE62, 2, false, false},
	{0x1EE63, 0x1EE63, 3, false, false},
	{0x1EE64, 0x1EE64, 2, false, false},
	{0x1EE65, 0x1EE66, 3, false, false},
	{0x1EE67, 0x1EE6A, 2, false, false},
	{0x1EE6B, 0x1EE6B, 3, false, false},
	{0x1EE6C, 0x1EE72, 2, false, false},
	{0x1EE73, 0x1EE73, 3, false, false},
	{0x1EE74, 0x1EE77, 2, false, false},
	{0x1EE78, 0x1EE78, 3, false, false},
	{0x1EE79, 0x1EE7C, 2, false, false},
	{0x1EE7D, 0x1EE7D, 3, false, false},
	{0x1EE7E, 0x1EE7E, 2, false, false},
	{0x1EE7F, 0x1EE7F, 3, false, false},
	{0x1EE80, 0x1EE89, 2, false, false},
	{0x1EE8A, 0x1EE8A, 3, false, false},
	{0x1EE8B, 0x1EE9B, 2, false, false},
	{0x1EE9C, 0x1EEA0, 3, false, false},
	{0x1EEA1, 0x1EEA3, 2, false, false},
	{0x1EEA4, 0x1EEA4, 3, false, false},
	{0x1EEA5, 0x1EEA9, 2, false, false},
	{0x1EEAA, 0x1EEAA, 3, false, false},
	{0x1EEAB, 0x1EEBB, 2, false, false},
	{0x1EEBC, 0x1EEEF, 3, false, false},
	{0x1EEF0, 0x1EEF1, 2, false, false},
	{0x1EEF2, 0x1EFFF, 3, false, false},
	{0x1F000, 0x1F003, 2, false, true},
	{0x1F004, 0x1F004, 4, false, true},
	{0x1F005, 0x1F02B, 2, false, true},
	{0x1F02C, 0x1F02F, 3, false, true},
	{0x1F030, 0x1F093, 2, false, true},
	{0x1F094, 0x1F09F, 3, false, true},
	{0x1F0A0, 0x1F0AE, 2, false, true},
	{0x1F0AF, 0x1F0B0, 3, false, true},
	{0x1F0B1, 0x1F0BF, 2, false, true},
	{0x1F0C0, 0x1F0C0, 3, false, true},
	{0x1F0C1, 0x1F0CE, 2, false, true},
	{0x1F0CF, 0x1F0CF, 4, false, true},
	{0x1F0D0, 0x1F0D0, 3, false, true},
	{0x1F0D1, 0x1F0F5, 2, false, true},
	{0x1F0F6, 0x1F0FF, 3, false, true},
	{0x1F100, 0x1F10A, 2, true, false},
	{0x1F10B, 0x1F10C, 2, false, false},
	{0x1F10D, 0x1F10F, 2, false, true},
	{0x1F110, 0x1F12D, 2, true, false},
	{0x1F12E, 0x1F12E, 2, false, false},
	{0x1F12F, 0x1F12F, 2, false, true},
	{0x1F130, 0x1F169, 2, true, false},
	{0x1F16A, 0x1F16B, 2, false, false},
	{0x1F16C, 0x1F16F, 2, false, true},
	{0x1F170, 0x1F171, 2, true, true},
	{0x1F172, 0x1F17D, 2, true, false},
	{0x1F17E, 0x1F17F, 2, true, true},
	{0x1F180, 0x1F18D, 2, true, false},
	{0x1F18E, 0x1F18E, 4, false, true},
	{0x1F18F, 0x1F190, 2, true, false},
	{0x1F191, 0x1F19A, 4, false, true},
	{0x1F19B, 0x1F1AC, 2, true, false},
	{0x1F1AD, 0x1F1AD, 2, false, true},
	{0x1F1AE, 0x1F1E5, 3, false, true},
	{0x1F1E6, 0x1F1FF, 2, false, false},
	{0x1F200, 0x1F200, 4, false, false},
	{0x1F201, 0x1F202, 4, false, true},
	{0x1F203, 0x1F20F, 3, false, true},
	{0x1F210, 0x1F219, 4, false, false},
	{0x1F21A, 0x1F21A, 4, false, true},
	{0x1F21B, 0x1F22E, 4, false, false},
	{0x1F22F, 0x1F22F, 4, false, true},
	{0x1F230, 0x1F231, 4, false, false},
	{0x1F232, 0x1F23A, 4, false, true},
	{0x1F23B, 0x1F23B, 4, false, false},
	{0x1F23C, 0x1F23F, 3, false, true},
	{0x1F240, 0x1F248, 4, false, false},
	{0x1F249, 0x1F24F, 3, false, true},
	{0x1F250, 0x1F251, 4, false, true},
	{0x1F252, 0x1F25F, 3, false, true},
	{0x1F260, 0x1F265, 4, false, true},
	{0x1F266, 0x1F2FF, 3, false, true},
	{0x1F300, 0x1F320, 4, false, true},
	{0x1F321, 0x1F32C, 2, false, true},
	{0x1F32D, 0x1F335, 4, false, true},
	{0x1F336, 0x1F336, 2, false, true},
	{0x1F337, 0x1F37C, 4, false, true},
	{0x1F37D, 0x1F37D, 2, false, true},
	{0x1F37E, 0x1F393, 4, false, true},
	{0x1F394, 0x1F39F, 2, false, true},
	{0x1F3A0, 0x1F3CA, 4, false, true},
	{0x1F3CB, 0x1F3CE, 2, false, true},
	{0x1F3CF, 0x1F3D3, 4, false, true},
	{0x1F3D4, 0x1F3DF, 2, false, true},
	{0x1F3E0, 0x1F3F0, 4, false, true},
	{0x1F3F1, 0x1F3F3, 2, false, true},
	{0x1F3F4, 0x1F3F4, 4, false, true},
	{0x1F3F5, 0x1F3F7, 2, false, true},
	{0x1F3F8, 0x1F3FA, 4, false, true},
	{0x1F3FB, 0x1F3FF, 4, false, false},
	{0x1F400, 0x1F43E, 4, false, true},
	{0x1F43F, 0x1F43F, 2, false, true},
	{0x1F440, 0x1F440, 4, false, true},
	{0x1F441, 0x1F441, 2, false, true},
	{0x1F442, 0x1F4FC, 4, false, true},
	{0x1F4FD, 0x1F4FE, 2, false, true},
	{0x1F4FF, 0x1F53D, 4, false, true},
	{0x1F53E, 0x1F545, 2, false, false},
	{0x1F546, 0x1F54A, 2, false, true},
	{0x1F54B, 0x1F54E, 4, false, true},
	{0x1F54F, 0x1F54F, 2, false, true},
	{0x1F550, 0x1F567, 4, false, true},
	{0x1F568, 0x1F579, 2, false, true},
	{0x1F57A, 0x1F57A, 4, false, true},
	{0x1F57B, 0x1F594, 2, false, true},
	{0x1F595, 0x1F596, 4, false, true},
	{0x1F597, 0x1F5A3, 2, false, true},
	{0x1F5A4, 0x1F5A4, 4, false, true},
	{0x1F5A5, 0x1F5FA, 2, false, true},
	{0x1F5FB, 0x1F64F, 4, false, true},
	{0x1F650, 0x1F67F, 2, false, false},
	{0x1F680, 0x1F6C5, 4, false, true},
	{0x1F6C6, 0x1F6CB, 2, false, true},
	{0x1F6CC, 0x1F6CC, 4, false, true},
	{0x1F6CD, 0x1F6CF, 2, false, true},
	{0x1F6D0, 0x1F6D2, 4, false, true},
	{0x1F6D3, 0x1F6D4, 2, false, true},
	{0x1F6D5, 0x1F6D7, 4, false, true},
	{0x1F6D8, 0x1F6DB, 3, false, true},
	{0x1F6DC, 0x1F6DF, 4, false, true},
	{0x1F6E0, 0x1F6EA, 2, false, true},
	{0x1F6EB, 0x1F6EC, 4, false, true},
	{0x1F6ED, 0x1F6EF, 3, false, true},
	{0x1F6F0, 0x1F6F3, 2, false, true},
	{0x1F6F4, 0x1F6FC, 4, false, true},
	{0x1F6FD, 0x1F6FF, 3, false, true},
	{0x1F700, 0x1F773, 2, false, false},
	{0x1F774, 0x1F776, 2, false, true},
	{0x1F777, 0x1F77A, 3, false, true},
	{0x1F77B, 0x1F77F, 2, false, true},
	{0x1F780, 0x1F7D4, 2, false, false},
	{0x1F7D5, 0x1F7D9, 2, false, true},
	{0x1F7DA, 0x1F7DF, 3, false, true},
	{0x1F7E0, 0x1F7EB, 4, false, true},
	{0x1F7EC, 0x1F7EF, 3, false, true},
	{0x1F7F0, 0x1F7F0, 4, false, true},
	{0x1F7F1, 0x1F7FF, 3, false, true},
	{0x1F800, 0x1F80B, 2, false, false},
	{0x1F80C, 0x1F80F, 3, false, true},
	{0x1F810, 0x1F847, 2, false, false},
	{0x1F848, 0x1F84F, 3, false, true},
	{0x1F850, 0x1F859, 2, false, false},
	{0x1F85A, 0x1F85F, 3, false, true},
	{0x1F860, 0x1F887, 2, false, false},
	{0x1F888, 0x1F88F, 3, false, true},
	{0x1F890, 0x1F8AD, 2, false, false},
	{0x1F8AE, 0x1F8AF, 3, false, true},
	{0x1F8B0, 0x1F8B1, 2, false, true},
	{0x1F8B2, 0x1F8FF, 3, false, true},
	{0x1F900, 0x1F90B, 2, false, false},
	{0x1F90C, 0x1F93A, 4, false, true},
	{0x1F93B, 0x1F93B, 2, false, false},
	{0x1F93C, 0x1F945, 4, false, true},
	{0x1F946, 0x1F946, 2, false, false},
	{0x1F947, 0x1F9FF, 4, false, true},
	{0x1FA00, 0x1FA53, 2, false, true},
	{0x1FA54, 0x1FA5F, 3, false, true},
	{0x1FA60, 0x1FA6D, 2, false, true},
	{0x1FA6E, 0x1FA6F, 3, false, true},
	{0x1FA70, 0x1FA7C, 4, false, true},
	{0x1FA7D, 0x1FA7F, 3, false, true},
	{0x1FA80, 0x1FA88, 4, false, true},
	{0x1FA89, 0x1FA8F, 3, false, true},
	{0x1FA90, 0x1FABD, 4, false, true},
	{0x1FABE, 0x1FABE, 3, false, true},
	{0x1FABF, 0x1FAC5, 4, false, true},
	{0x1FAC6, 0x1FACD, 3, false, true},
	{0x1FACE, 0x1FADB, 4, false, true},
	{0x1FADC, 0x1FADF, 3, false, true},
	{0x1FAE0, 0x1FAE8, 4, false, true},
	{0x1FAE9, 0x1FAEF, 3, false, true},
	{0x1FAF0, 0x1FAF8, 4, false, true},
	{0x1FAF9, 0x1FAFF, 3, false, true},
	{0x1FB00, 0x1FB92, 2, false, false},
	{0x1FB93, 0x1FB93, 3, false, false},
	{0x1FB94, 0x1FBCA, 2, false, false},
	{0x1FBCB, 0x1FBEF, 3, false, false},
	{0x1FBF0, 0x1FBF9, 2, false, false},
	{0x1FBFA, 0x1FBFF, 3, false, false},
	{0x1FC00, 0x1FFFD, 3, false, true},
	{0x1FFFE, 0x1FFFF, 3, false, false},
	{0x20000, 0x2A6DF, 4, false, false},
	{0x2A6E0, 0x2A6FF, 5, false, false},
	{0x2A700, 0x2B739, 4, false, false},
	{0x2B73A, 0x2B73F, 5, false, false},
	{0x2B740, 0x2B81D, 4, false, false},
	{0x2B81E, 0x2B81F, 5, false, false},
	{0x2B820, 0x2CEA1, 4, false, false},
	{0x2CEA2, 0x2CEAF, 5, false, false},
	{0x2CEB0, 0x2EBE0, 4, false, false},
	{0x2EBE1, 0x2F7FF, 5, false, false},
	{0x2F800, 0x2FA1D, 4, false, false},
	{0x2FA1E, 0x2FFFD, 5, false, false},
	{0x2FFFE, 0x2FFFF, 3, false, false},
	{0x30000, 0x3134A, 4, false, false},
	{0x3134B, 0x3134F, 5, false, false},
	{0x31350, 0x323AF, 4, false, false},
	{0x323B0, 0x3FFFD, 5, false, false},
	{0x3FFFE, 0xE00FF, 3, false, false},
	{0xE0100, 0xE01EF, 3, true, false},
	{0xE01F0, 0xEFFFF, 3, false, false},
	{0xF0000, 0xFFFFD, 2, true, false},
	{0xFFFFE, 0xFFFFF, 3, false, false},
	{0x100000, 0x10FFFD, 2, true, false},
	{0x10FFFE, 0x10FFFF, 3, false, false},
}
