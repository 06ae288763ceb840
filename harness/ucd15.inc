{0x0,lexy::code_point::Cc,0,0},
{0x9,lexy::code_point::Cc,1,0},
{0xE,lexy::code_point::Cc,0,0},
{0x20,lexy::code_point::Zs,1,0},
{0x21,lexy::code_point::Po,0,0},
{0x24,lexy::code_point::Sc,0,0},
{0x25,lexy::code_point::Po,0,0},
{0x28,lexy::code_point::Ps,0,0},
{0x29,lexy::code_point::Pe,0,0},
{0x2A,lexy::code_point::Po,0,0},
{0x2B,lexy::code_point::Sm,0,0},
{0x2C,lexy::code_point::Po,0,0},
{0x2D,lexy::code_point::Pd,0,0},
{0x2E,lexy::code_point::Po,0,0},
{0x30,lexy::code_point::Nd,64,0},
{0x3A,lexy::code_point::Po,0,0},
{0x3C,lexy::code_point::Sm,0,0},
{0x3F,lexy::code_point::Po,0,0},
{0x41,lexy::code_point::Lu,108,32},
{0x5B,lexy::code_point::Ps,0,0},
{0x5C,lexy::code_point::Po,0,0},
{0x5D,lexy::code_point::Pe,0,0},
{0x5E,lexy::code_point::Sk,0,0},
{0x5F,lexy::code_point::Pc,64,0},
{0x60,lexy::code_point::Sk,0,0},
{0x61,lexy::code_point::Ll,116,0},
{0x7B,lexy::code_point::Ps,0,0},
{0x7C,lexy::code_point::Sm,0,0},
{0x7D,lexy::code_point::Pe,0,0},
{0x7E,lexy::code_point::Sm,0,0},
{0x7F,lexy::code_point::Cc,0,0},
{0x85,lexy::code_point::Cc,1,0},
{0x86,lexy::code_point::Cc,0,0},
{0xA0,lexy::code_point::Zs,1,0},
{0xA1,lexy::code_point::Po,0,0},
{0xA2,lexy::code_point::Sc,0,0},
{0xA6,lexy::code_point::So,0,0},
{0xA7,lexy::code_point::Po,0,0},
{0xA8,lexy::code_point::Sk,0,0},
{0xA9,lexy::code_point::So,0,0},
{0xAA,lexy::code_point::Lo,116,0},
{0xAB,lexy::code_point::Pi,0,0},
{0xAC,lexy::code_point::Sm,0,0},
{0xAD,lexy::code_point::Cf,0,0},
{0xAE,lexy::code_point::So,0,0},
{0xAF,lexy::code_point::Sk,0,0},
{0xB0,lexy::code_point::So,0,0},
{0xB1,lexy::code_point::Sm,0,0},
{0xB2,lexy::code_point::No,0,0},
{0xB4,lexy::code_point::Sk,0,0},
{0xB5,lexy::code_point::Ll,116,775},
{0xB6,lexy::code_point::Po,0,0},
{0xB7,lexy::code_point::Po,64,0},
{0xB8,lexy::code_point::Sk,0,0},
{0xB9,lexy::code_point::No,0,0},
{0xBA,lexy::code_point::Lo,116,0},
{0xBB,lexy::code_point::Pf,0,0},
{0xBC,lexy::code_point::No,0,0},
{0xBF,lexy::code_point::Po,0,0},
{0xC0,lexy::code_point::Lu,108,32},
{0xD7,lexy::code_point::Sm,0,0},
{0xD8,lexy::code_point::Lu,108,32},
{0xDF,lexy::code_point::Ll,116,0},
{0xF7,lexy::code_point::Sm,0,0},
{0xF8,lexy::code_point::Ll,116,0},
{0x100,lexy::code_point::Lu,108,1},
{0x101,lexy::code_point::Ll,116,0},
{0x102,lexy::code_point::Lu,108,1},
{0x103,lexy::code_point::Ll,116,0},
{0x104,lexy::code_point::Lu,108,1},
{0x105,lexy::code_point::Ll,116,0},
{0x106,lexy::code_point::Lu,108,1},
{0x107,lexy::code_point::Ll,116,0},
{0x108,lexy::code_point::Lu,108,1},
{0x109,lexy::code_point::Ll,116,0},
{0x10A,lexy::code_point::Lu,108,1},
{0x10B,lexy::code_point::Ll,116,0},
{0x10C,lexy::code_point::Lu,108,1},
{0x10D,lexy::code_point::Ll,116,0},
{0x10E,lexy::code_point::Lu,108,1},
{0x10F,lexy::code_point::Ll,116,0},
{0x110,lexy::code_point::Lu,108,1},
{0x111,lexy::code_point::Ll,116,0},
{0x112,lexy::code_point::Lu,108,1},
{0x113,lexy::code_point::Ll,116,0},
{0x114,lexy::code_point::Lu,108,1},
{0x115,lexy::code_point::Ll,116,0},
{0x116,lexy::code_point::Lu,108,1},
{0x117,lexy::code_point::Ll,116,0},
{0x118,lexy::code_point::Lu,108,1},
{0x119,lexy::code_point::Ll,116,0},
{0x11A,lexy::code_point::Lu,108,1},
{0x11B,lexy::code_point::Ll,116,0},
{0x11C,lexy::code_point::Lu,108,1},
{0x11D,lexy::code_point::Ll,116,0},
{0x11E,lexy::code_point::Lu,108,1},
{0x11F,lexy::code_point::Ll,116,0},
{0x120,lexy::code_point::Lu,108,1},
{0x121,lexy::code_point::Ll,116,0},
{0x122,lexy::code_point::Lu,108,1},
{0x123,lexy::code_point::Ll,116,0},
{0x124,lexy::code_point::Lu,108,1},
{0x125,lexy::code_point::Ll,116,0},
{0x126,lexy::code_point::Lu,108,1},
{0x127,lexy::code_point::Ll,116,0},
{0x128,lexy::code_point::Lu,108,1},
{0x129,lexy::code_point::Ll,116,0},
{0x12A,lexy::code_point::Lu,108,1},
{0x12B,lexy::code_point::Ll,116,0},
{0x12C,lexy::code_point::Lu,108,1},
{0x12D,lexy::code_point::Ll,116,0},
{0x12E,lexy::code_point::Lu,108,1},
{0x12F,lexy::code_point::Ll,116,0},
{0x130,lexy::code_point::Lu,108,0},
{0x131,lexy::code_point::Ll,116,0},
{0x132,lexy::code_point::Lu,108,1},
{0x133,lexy::code_point::Ll,116,0},
{0x134,lexy::code_point::Lu,108,1},
{0x135,lexy::code_point::Ll,116,0},
{0x136,lexy::code_point::Lu,108,1},
{0x137,lexy::code_point::Ll,116,0},
{0x139,lexy::code_point::Lu,108,1},
{0x13A,lexy::code_point::Ll,116,0},
{0x13B,lexy::code_point::Lu,108,1},
{0x13C,lexy::code_point::Ll,116,0},
{0x13D,lexy::code_point::Lu,108,1},
{0x13E,lexy::code_point::Ll,116,0},
{0x13F,lexy::code_point::Lu,108,1},
{0x140,lexy::code_point::Ll,116,0},
{0x141,lexy::code_point::Lu,108,1},
{0x142,lexy::code_point::Ll,116,0},
{0x143,lexy::code_point::Lu,108,1},
{0x144,lexy::code_point::Ll,116,0},
{0x145,lexy::code_point::Lu,108,1},
{0x146,lexy::code_point::Ll,116,0},
{0x147,lexy::code_point::Lu,108,1},
{0x148,lexy::code_point::Ll,116,0},
{0x14A,lexy::code_point::Lu,108,1},
{0x14B,lexy::code_point::Ll,116,0},
{0x14C,lexy::code_point::Lu,108,1},
{0x14D,lexy::code_point::Ll,116,0},
{0x14E,lexy::code_point::Lu,108,1},
{0x14F,lexy::code_point::Ll,116,0},
{0x150,lexy::code_point::Lu,108,1},
{0x151,lexy::code_point::Ll,116,0},
{0x152,lexy::code_point::Lu,108,1},
{0x153,lexy::code_point::Ll,116,0},
{0x154,lexy::code_point::Lu,108,1},
{0x155,lexy::code_point::Ll,116,0},
{0x156,lexy::code_point::Lu,108,1},
{0x157,lexy::code_point::Ll,116,0},
{0x158,lexy::code_point::Lu,108,1},
{0x159,lexy::code_point::Ll,116,0},
{0x15A,lexy::code_point::Lu,108,1},
{0x15B,lexy::code_point::Ll,116,0},
{0x15C,lexy::code_point::Lu,108,1},
{0x15D,lexy::code_point::Ll,116,0},
{0x15E,lexy::code_point::Lu,108,1},
{0x15F,lexy::code_point::Ll,116,0},
{0x160,lexy::code_point::Lu,108,1},
{0x161,lexy::code_point::Ll,116,0},
{0x162,lexy::code_point::Lu,108,1},
{0x163,lexy::code_point::Ll,116,0},
{0x164,lexy::code_point::Lu,108,1},
{0x165,lexy::code_point::Ll,116,0},
{0x166,lexy::code_point::Lu,108,1},
{0x167,lexy::code_point::Ll,116,0},
{0x168,lexy::code_point::Lu,108,1},
{0x169,lexy::code_point::Ll,116,0},
{0x16A,lexy::code_point::Lu,108,1},
{0x16B,lexy::code_point::Ll,116,0},
{0x16C,lexy::code_point::Lu,108,1},
{0x16D,lexy::code_point::Ll,116,0},
{0x16E,lexy::code_point::Lu,108,1},
{0x16F,lexy::code_point::Ll,116,0},
{0x170,lexy::code_point::Lu,108,1},
{0x171,lexy::code_point::Ll,116,0},
{0x172,lexy::code_point::Lu,108,1},
{0x173,lexy::code_point::Ll,116,0},
{0x174,lexy::code_point::Lu,108,1},
{0x175,lexy::code_point::Ll,116,0},
{0x176,lexy::code_point::Lu,108,1},
{0x177,lexy::code_point::Ll,116,0},
{0x178,lexy::code_point::Lu,108,-121},
{0x179,lexy::code_point::Lu,108,1},
{0x17A,lexy::code_point::Ll,116,0},
{0x17B,lexy::code_point::Lu,108,1},
{0x17C,lexy::code_point::Ll,116,0},
{0x17D,lexy::code_point::Lu,108,1},
{0x17E,lexy::code_point::Ll,116,0},
{0x17F,lexy::code_point::Ll,116,-268},
{0x180,lexy::code_point::Ll,116,0},
{0x181,lexy::code_point::Lu,108,210},
{0x182,lexy::code_point::Lu,108,1},
{0x183,lexy::code_point::Ll,116,0},
{0x184,lexy::code_point::Lu,108,1},
{0x185,lexy::code_point::Ll,116,0},
{0x186,lexy::code_point::Lu,108,206},
{0x187,lexy::code_point::Lu,108,1},
{0x188,lexy::code_point::Ll,116,0},
{0x189,lexy::code_point::Lu,108,205},
{0x18B,lexy::code_point::Lu,108,1},
{0x18C,lexy::code_point::Ll,116,0},
{0x18E,lexy::code_point::Lu,108,79},
{0x18F,lexy::code_point::Lu,108,202},
{0x190,lexy::code_point::Lu,108,203},
{0x191,lexy::code_point::Lu,108,1},
{0x192,lexy::code_point::Ll,116,0},
{0x193,lexy::code_point::Lu,108,205},
{0x194,lexy::code_point::Lu,108,207},
{0x195,lexy::code_point::Ll,116,0},
{0x196,lexy::code_point::Lu,108,211},
{0x197,lexy::code_point::Lu,108,209},
{0x198,lexy::code_point::Lu,108,1},
{0x199,lexy::code_point::Ll,116,0},
{0x19C,lexy::code_point::Lu,108,211},
{0x19D,lexy::code_point::Lu,108,213},
{0x19E,lexy::code_point::Ll,116,0},
{0x19F,lexy::code_point::Lu,108,214},
{0x1A0,lexy::code_point::Lu,108,1},
{0x1A1,lexy::code_point::Ll,116,0},
{0x1A2,lexy::code_point::Lu,108,1},
{0x1A3,lexy::code_point::Ll,116,0},
{0x1A4,lexy::code_point::Lu,108,1},
{0x1A5,lexy::code_point::Ll,116,0},
{0x1A6,lexy::code_point::Lu,108,218},
{0x1A7,lexy::code_point::Lu,108,1},
{0x1A8,lexy::code_point::Ll,116,0},
{0x1A9,lexy::code_point::Lu,108,218},
{0x1AA,lexy::code_point::Ll,116,0},
{0x1AC,lexy::code_point::Lu,108,1},
{0x1AD,lexy::code_point::Ll,116,0},
{0x1AE,lexy::code_point::Lu,108,218},
{0x1AF,lexy::code_point::Lu,108,1},
{0x1B0,lexy::code_point::Ll,116,0},
{0x1B1,lexy::code_point::Lu,108,217},
{0x1B3,lexy::code_point::Lu,108,1},
{0x1B4,lexy::code_point::Ll,116,0},
{0x1B5,lexy::code_point::Lu,108,1},
{0x1B6,lexy::code_point::Ll,116,0},
{0x1B7,lexy::code_point::Lu,108,219},
{0x1B8,lexy::code_point::Lu,108,1},
{0x1B9,lexy::code_point::Ll,116,0},
{0x1BB,lexy::code_point::Lo,100,0},
{0x1BC,lexy::code_point::Lu,108,1},
{0x1BD,lexy::code_point::Ll,116,0},
{0x1C0,lexy::code_point::Lo,100,0},
{0x1C4,lexy::code_point::Lu,108,2},
{0x1C5,lexy::code_point::Lt,100,1},
{0x1C6,lexy::code_point::Ll,116,0},
{0x1C7,lexy::code_point::Lu,108,2},
{0x1C8,lexy::code_point::Lt,100,1},
{0x1C9,lexy::code_point::Ll,116,0},
{0x1CA,lexy::code_point::Lu,108,2},
{0x1CB,lexy::code_point::Lt,100,1},
{0x1CC,lexy::code_point::Ll,116,0},
{0x1CD,lexy::code_point::Lu,108,1},
{0x1CE,lexy::code_point::Ll,116,0},
{0x1CF,lexy::code_point::Lu,108,1},
{0x1D0,lexy::code_point::Ll,116,0},
{0x1D1,lexy::code_point::Lu,108,1},
{0x1D2,lexy::code_point::Ll,116,0},
{0x1D3,lexy::code_point::Lu,108,1},
{0x1D4,lexy::code_point::Ll,116,0},
{0x1D5,lexy::code_point::Lu,108,1},
{0x1D6,lexy::code_point::Ll,116,0},
{0x1D7,lexy::code_point::Lu,108,1},
{0x1D8,lexy::code_point::Ll,116,0},
{0x1D9,lexy::code_point::Lu,108,1},
{0x1DA,lexy::code_point::Ll,116,0},
{0x1DB,lexy::code_point::Lu,108,1},
{0x1DC,lexy::code_point::Ll,116,0},
{0x1DE,lexy::code_point::Lu,108,1},
{0x1DF,lexy::code_point::Ll,116,0},
{0x1E0,lexy::code_point::Lu,108,1},
{0x1E1,lexy::code_point::Ll,116,0},
{0x1E2,lexy::code_point::Lu,108,1},
{0x1E3,lexy::code_point::Ll,116,0},
{0x1E4,lexy::code_point::Lu,108,1},
{0x1E5,lexy::code_point::Ll,116,0},
{0x1E6,lexy::code_point::Lu,108,1},
{0x1E7,lexy::code_point::Ll,116,0},
{0x1E8,lexy::code_point::Lu,108,1},
{0x1E9,lexy::code_point::Ll,116,0},
{0x1EA,lexy::code_point::Lu,108,1},
{0x1EB,lexy::code_point::Ll,116,0},
{0x1EC,lexy::code_point::Lu,108,1},
{0x1ED,lexy::code_point::Ll,116,0},
{0x1EE,lexy::code_point::Lu,108,1},
{0x1EF,lexy::code_point::Ll,116,0},
{0x1F1,lexy::code_point::Lu,108,2},
{0x1F2,lexy::code_point::Lt,100,1},
{0x1F3,lexy::code_point::Ll,116,0},
{0x1F4,lexy::code_point::Lu,108,1},
{0x1F5,lexy::code_point::Ll,116,0},
{0x1F6,lexy::code_point::Lu,108,-97},
{0x1F7,lexy::code_point::Lu,108,-56},
{0x1F8,lexy::code_point::Lu,108,1},
{0x1F9,lexy::code_point::Ll,116,0},
{0x1FA,lexy::code_point::Lu,108,1},
{0x1FB,lexy::code_point::Ll,116,0},
{0x1FC,lexy::code_point::Lu,108,1},
{0x1FD,lexy::code_point::Ll,116,0},
{0x1FE,lexy::code_point::Lu,108,1},
{0x1FF,lexy::code_point::Ll,116,0},
{0x200,lexy::code_point::Lu,108,1},
{0x201,lexy::code_point::Ll,116,0},
{0x202,lexy::code_point::Lu,108,1},
{0x203,lexy::code_point::Ll,116,0},
{0x204,lexy::code_point::Lu,108,1},
{0x205,lexy::code_point::Ll,116,0},
{0x206,lexy::code_point::Lu,108,1},
{0x207,lexy::code_point::Ll,116,0},
{0x208,lexy::code_point::Lu,108,1},
{0x209,lexy::code_point::Ll,116,0},
{0x20A,lexy::code_point::Lu,108,1},
{0x20B,lexy::code_point::Ll,116,0},
{0x20C,lexy::code_point::Lu,108,1},
{0x20D,lexy::code_point::Ll,116,0},
{0x20E,lexy::code_point::Lu,108,1},
{0x20F,lexy::code_point::Ll,116,0},
{0x210,lexy::code_point::Lu,108,1},
{0x211,lexy::code_point::Ll,116,0},
{0x212,lexy::code_point::Lu,108,1},
{0x213,lexy::code_point::Ll,116,0},
{0x214,lexy::code_point::Lu,108,1},
{0x215,lexy::code_point::Ll,116,0},
{0x216,lexy::code_point::Lu,108,1},
{0x217,lexy::code_point::Ll,116,0},
{0x218,lexy::code_point::Lu,108,1},
{0x219,lexy::code_point::Ll,116,0},
{0x21A,lexy::code_point::Lu,108,1},
{0x21B,lexy::code_point::Ll,116,0},
{0x21C,lexy::code_point::Lu,108,1},
{0x21D,lexy::code_point::Ll,116,0},
{0x21E,lexy::code_point::Lu,108,1},
{0x21F,lexy::code_point::Ll,116,0},
{0x220,lexy::code_point::Lu,108,-130},
{0x221,lexy::code_point::Ll,116,0},
{0x222,lexy::code_point::Lu,108,1},
{0x223,lexy::code_point::Ll,116,0},
{0x224,lexy::code_point::Lu,108,1},
{0x225,lexy::code_point::Ll,116,0},
{0x226,lexy::code_point::Lu,108,1},
{0x227,lexy::code_point::Ll,116,0},
{0x228,lexy::code_point::Lu,108,1},
{0x229,lexy::code_point::Ll,116,0},
{0x22A,lexy::code_point::Lu,108,1},
{0x22B,lexy::code_point::Ll,116,0},
{0x22C,lexy::code_point::Lu,108,1},
{0x22D,lexy::code_point::Ll,116,0},
{0x22E,lexy::code_point::Lu,108,1},
{0x22F,lexy::code_point::Ll,116,0},
{0x230,lexy::code_point::Lu,108,1},
{0x231,lexy::code_point::Ll,116,0},
{0x232,lexy::code_point::Lu,108,1},
{0x233,lexy::code_point::Ll,116,0},
{0x23A,lexy::code_point::Lu,108,10795},
{0x23B,lexy::code_point::Lu,108,1},
{0x23C,lexy::code_point::Ll,116,0},
{0x23D,lexy::code_point::Lu,108,-163},
{0x23E,lexy::code_point::Lu,108,10792},
{0x23F,lexy::code_point::Ll,116,0},
{0x241,lexy::code_point::Lu,108,1},
{0x242,lexy::code_point::Ll,116,0},
{0x243,lexy::code_point::Lu,108,-195},
{0x244,lexy::code_point::Lu,108,69},
{0x245,lexy::code_point::Lu,108,71},
{0x246,lexy::code_point::Lu,108,1},
{0x247,lexy::code_point::Ll,116,0},
{0x248,lexy::code_point::Lu,108,1},
{0x249,lexy::code_point::Ll,116,0},
{0x24A,lexy::code_point::Lu,108,1},
{0x24B,lexy::code_point::Ll,116,0},
{0x24C,lexy::code_point::Lu,108,1},
{0x24D,lexy::code_point::Ll,116,0},
{0x24E,lexy::code_point::Lu,108,1},
{0x24F,lexy::code_point::Ll,116,0},
{0x294,lexy::code_point::Lo,100,0},
{0x295,lexy::code_point::Ll,116,0},
{0x2B0,lexy::code_point::Lm,116,0},
{0x2B9,lexy::code_point::Lm,100,0},
{0x2C0,lexy::code_point::Lm,116,0},
{0x2C2,lexy::code_point::Sk,0,0},
{0x2C6,lexy::code_point::Lm,100,0},
{0x2D2,lexy::code_point::Sk,0,0},
{0x2E0,lexy::code_point::Lm,116,0},
{0x2E5,lexy::code_point::Sk,0,0},
{0x2EC,lexy::code_point::Lm,100,0},
{0x2ED,lexy::code_point::Sk,0,0},
{0x2EE,lexy::code_point::Lm,100,0},
{0x2EF,lexy::code_point::Sk,0,0},
{0x300,lexy::code_point::Mn,64,0},
{0x345,lexy::code_point::Mn,84,116},
{0x346,lexy::code_point::Mn,64,0},
{0x370,lexy::code_point::Lu,108,1},
{0x371,lexy::code_point::Ll,116,0},
{0x372,lexy::code_point::Lu,108,1},
{0x373,lexy::code_point::Ll,116,0},
{0x374,lexy::code_point::Lm,100,0},
{0x375,lexy::code_point::Sk,0,0},
{0x376,lexy::code_point::Lu,108,1},
{0x377,lexy::code_point::Ll,116,0},
{0x378,lexy::code_point::Cn,0,0},
{0x37A,lexy::code_point::Lm,20,0},
{0x37B,lexy::code_point::Ll,116,0},
{0x37E,lexy::code_point::Po,0,0},
{0x37F,lexy::code_point::Lu,108,116},
{0x380,lexy::code_point::Cn,0,0},
{0x384,lexy::code_point::Sk,0,0},
{0x386,lexy::code_point::Lu,108,38},
{0x387,lexy::code_point::Po,64,0},
{0x388,lexy::code_point::Lu,108,37},
{0x38B,lexy::code_point::Cn,0,0},
{0x38C,lexy::code_point::Lu,108,64},
{0x38D,lexy::code_point::Cn,0,0},
{0x38E,lexy::code_point::Lu,108,63},
{0x390,lexy::code_point::Ll,116,0},
{0x391,lexy::code_point::Lu,108,32},
{0x3A2,lexy::code_point::Cn,0,0},
{0x3A3,lexy::code_point::Lu,108,32},
{0x3AC,lexy::code_point::Ll,116,0},
{0x3C2,lexy::code_point::Ll,116,1},
{0x3C3,lexy::code_point::Ll,116,0},
{0x3CF,lexy::code_point::Lu,108,8},
{0x3D0,lexy::code_point::Ll,116,-30},
{0x3D1,lexy::code_point::Ll,116,-25},
{0x3D2,lexy::code_point::Lu,108,0},
{0x3D5,lexy::code_point::Ll,116,-15},
{0x3D6,lexy::code_point::Ll,116,-22},
{0x3D7,lexy::code_point::Ll,116,0},
{0x3D8,lexy::code_point::Lu,108,1},
{0x3D9,lexy::code_point::Ll,116,0},
{0x3DA,lexy::code_point::Lu,108,1},
{0x3DB,lexy::code_point::Ll,116,0},
{0x3DC,lexy::code_point::Lu,108,1},
{0x3DD,lexy::code_point::Ll,116,0},
{0x3DE,lexy::code_point::Lu,108,1},
{0x3DF,lexy::code_point::Ll,116,0},
{0x3E0,lexy::code_point::Lu,108,1},
{0x3E1,lexy::code_point::Ll,116,0},
{0x3E2,lexy::code_point::Lu,108,1},
{0x3E3,lexy::code_point::Ll,116,0},
{0x3E4,lexy::code_point::Lu,108,1},
{0x3E5,lexy::code_point::Ll,116,0},
{0x3E6,lexy::code_point::Lu,108,1},
{0x3E7,lexy::code_point::Ll,116,0},
{0x3E8,lexy::code_point::Lu,108,1},
{0x3E9,lexy::code_point::Ll,116,0},
{0x3EA,lexy::code_point::Lu,108,1},
{0x3EB,lexy::code_point::Ll,116,0},
{0x3EC,lexy::code_point::Lu,108,1},
{0x3ED,lexy::code_point::Ll,116,0},
{0x3EE,lexy::code_point::Lu,108,1},
{0x3EF,lexy::code_point::Ll,116,0},
{0x3F0,lexy::code_point::Ll,116,-54},
{0x3F1,lexy::code_point::Ll,116,-48},
{0x3F2,lexy::code_point::Ll,116,0},
{0x3F4,lexy::code_point::Lu,108,-60},
{0x3F5,lexy::code_point::Ll,116,-64},
{0x3F6,lexy::code_point::Sm,0,0},
{0x3F7,lexy::code_point::Lu,108,1},
{0x3F8,lexy::code_point::Ll,116,0},
{0x3F9,lexy::code_point::Lu,108,-7},
{0x3FA,lexy::code_point::Lu,108,1},
{0x3FB,lexy::code_point::Ll,116,0},
{0x3FD,lexy::code_point::Lu,108,-130},
{0x400,lexy::code_point::Lu,108,80},
{0x410,lexy::code_point::Lu,108,32},
{0x430,lexy::code_point::Ll,116,0},
{0x460,lexy::code_point::Lu,108,1},
{0x461,lexy::code_point::Ll,116,0},
{0x462,lexy::code_point::Lu,108,1},
{0x463,lexy::code_point::Ll,116,0},
{0x464,lexy::code_point::Lu,108,1},
{0x465,lexy::code_point::Ll,116,0},
{0x466,lexy::code_point::Lu,108,1},
{0x467,lexy::code_point::Ll,116,0},
{0x468,lexy::code_point::Lu,108,1},
{0x469,lexy::code_point::Ll,116,0},
{0x46A,lexy::code_point::Lu,108,1},
{0x46B,lexy::code_point::Ll,116,0},
{0x46C,lexy::code_point::Lu,108,1},
{0x46D,lexy::code_point::Ll,116,0},
{0x46E,lexy::code_point::Lu,108,1},
{0x46F,lexy::code_point::Ll,116,0},
{0x470,lexy::code_point::Lu,108,1},
{0x471,lexy::code_point::Ll,116,0},
{0x472,lexy::code_point::Lu,108,1},
{0x473,lexy::code_point::Ll,116,0},
{0x474,lexy::code_point::Lu,108,1},
{0x475,lexy::code_point::Ll,116,0},
{0x476,lexy::code_point::Lu,108,1},
{0x477,lexy::code_point::Ll,116,0},
{0x478,lexy::code_point::Lu,108,1},
{0x479,lexy::code_point::Ll,116,0},
{0x47A,lexy::code_point::Lu,108,1},
{0x47B,lexy::code_point::Ll,116,0},
{0x47C,lexy::code_point::Lu,108,1},
{0x47D,lexy::code_point::Ll,116,0},
{0x47E,lexy::code_point::Lu,108,1},
{0x47F,lexy::code_point::Ll,116,0},
{0x480,lexy::code_point::Lu,108,1},
{0x481,lexy::code_point::Ll,116,0},
{0x482,lexy::code_point::So,0,0},
{0x483,lexy::code_point::Mn,64,0},
{0x488,lexy::code_point::Me,0,0},
{0x48A,lexy::code_point::Lu,108,1},
{0x48B,lexy::code_point::Ll,116,0},
{0x48C,lexy::code_point::Lu,108,1},
{0x48D,lexy::code_point::Ll,116,0},
{0x48E,lexy::code_point::Lu,108,1},
{0x48F,lexy::code_point::Ll,116,0},
{0x490,lexy::code_point::Lu,108,1},
{0x491,lexy::code_point::Ll,116,0},
{0x492,lexy::code_point::Lu,108,1},
{0x493,lexy::code_point::Ll,116,0},
{0x494,lexy::code_point::Lu,108,1},
{0x495,lexy::code_point::Ll,116,0},
{0x496,lexy::code_point::Lu,108,1},
{0x497,lexy::code_point::Ll,116,0},
{0x498,lexy::code_point::Lu,108,1},
{0x499,lexy::code_point::Ll,116,0},
{0x49A,lexy::code_point::Lu,108,1},
{0x49B,lexy::code_point::Ll,116,0},
{0x49C,lexy::code_point::Lu,108,1},
{0x49D,lexy::code_point::Ll,116,0},
{0x49E,lexy::code_point::Lu,108,1},
{0x49F,lexy::code_point::Ll,116,0},
{0x4A0,lexy::code_point::Lu,108,1},
{0x4A1,lexy::code_point::Ll,116,0},
{0x4A2,lexy::code_point::Lu,108,1},
{0x4A3,lexy::code_point::Ll,116,0},
{0x4A4,lexy::code_point::Lu,108,1},
{0x4A5,lexy::code_point::Ll,116,0},
{0x4A6,lexy::code_point::Lu,108,1},
{0x4A7,lexy::code_point::Ll,116,0},
{0x4A8,lexy::code_point::Lu,108,1},
{0x4A9,lexy::code_point::Ll,116,0},
{0x4AA,lexy::code_point::Lu,108,1},
{0x4AB,lexy::code_point::Ll,116,0},
{0x4AC,lexy::code_point::Lu,108,1},
{0x4AD,lexy::code_point::Ll,116,0},
{0x4AE,lexy::code_point::Lu,108,1},
{0x4AF,lexy::code_point::Ll,116,0},
{0x4B0,lexy::code_point::Lu,108,1},
{0x4B1,lexy::code_point::Ll,116,0},
{0x4B2,lexy::code_point::Lu,108,1},
{0x4B3,lexy::code_point::Ll,116,0},
{0x4B4,lexy::code_point::Lu,108,1},
{0x4B5,lexy::code_point::Ll,116,0},
{0x4B6,lexy::code_point::Lu,108,1},
{0x4B7,lexy::code_point::Ll,116,0},
{0x4B8,lexy::code_point::Lu,108,1},
{0x4B9,lexy::code_point::Ll,116,0},
{0x4BA,lexy::code_point::Lu,108,1},
{0x4BB,lexy::code_point::Ll,116,0},
{0x4BC,lexy::code_point::Lu,108,1},
{0x4BD,lexy::code_point::Ll,116,0},
{0x4BE,lexy::code_point::Lu,108,1},
{0x4BF,lexy::code_point::Ll,116,0},
{0x4C0,lexy::code_point::Lu,108,15},
{0x4C1,lexy::code_point::Lu,108,1},
{0x4C2,lexy::code_point::Ll,116,0},
{0x4C3,lexy::code_point::Lu,108,1},
{0x4C4,lexy::code_point::Ll,116,0},
{0x4C5,lexy::code_point::Lu,108,1},
{0x4C6,lexy::code_point::Ll,116,0},
{0x4C7,lexy::code_point::Lu,108,1},
{0x4C8,lexy::code_point::Ll,116,0},
{0x4C9,lexy::code_point::Lu,108,1},
{0x4CA,lexy::code_point::Ll,116,0},
{0x4CB,lexy::code_point::Lu,108,1},
{0x4CC,lexy::code_point::Ll,116,0},
{0x4CD,lexy::code_point::Lu,108,1},
{0x4CE,lexy::code_point::Ll,116,0},
{0x4D0,lexy::code_point::Lu,108,1},
{0x4D1,lexy::code_point::Ll,116,0},
{0x4D2,lexy::code_point::Lu,108,1},
{0x4D3,lexy::code_point::Ll,116,0},
{0x4D4,lexy::code_point::Lu,108,1},
{0x4D5,lexy::code_point::Ll,116,0},
{0x4D6,lexy::code_point::Lu,108,1},
{0x4D7,lexy::code_point::Ll,116,0},
{0x4D8,lexy::code_point::Lu,108,1},
{0x4D9,lexy::code_point::Ll,116,0},
{0x4DA,lexy::code_point::Lu,108,1},
{0x4DB,lexy::code_point::Ll,116,0},
{0x4DC,lexy::code_point::Lu,108,1},
{0x4DD,lexy::code_point::Ll,116,0},
{0x4DE,lexy::code_point::Lu,108,1},
{0x4DF,lexy::code_point::Ll,116,0},
{0x4E0,lexy::code_point::Lu,108,1},
{0x4E1,lexy::code_point::Ll,116,0},
{0x4E2,lexy::code_point::Lu,108,1},
{0x4E3,lexy::code_point::Ll,116,0},
{0x4E4,lexy::code_point::Lu,108,1},
{0x4E5,lexy::code_point::Ll,116,0},
{0x4E6,lexy::code_point::Lu,108,1},
{0x4E7,lexy::code_point::Ll,116,0},
{0x4E8,lexy::code_point::Lu,108,1},
{0x4E9,lexy::code_point::Ll,116,0},
{0x4EA,lexy::code_point::Lu,108,1},
{0x4EB,lexy::code_point::Ll,116,0},
{0x4EC,lexy::code_point::Lu,108,1},
{0x4ED,lexy::code_point::Ll,116,0},
{0x4EE,lexy::code_point::Lu,108,1},
{0x4EF,lexy::code_point::Ll,116,0},
{0x4F0,lexy::code_point::Lu,108,1},
{0x4F1,lexy::code_point::Ll,116,0},
{0x4F2,lexy::code_point::Lu,108,1},
{0x4F3,lexy::code_point::Ll,116,0},
{0x4F4,lexy::code_point::Lu,108,1},
{0x4F5,lexy::code_point::Ll,116,0},
{0x4F6,lexy::code_point::Lu,108,1},
{0x4F7,lexy::code_point::Ll,116,0},
{0x4F8,lexy::code_point::Lu,108,1},
{0x4F9,lexy::code_point::Ll,116,0},
{0x4FA,lexy::code_point::Lu,108,1},
{0x4FB,lexy::code_point::Ll,116,0},
{0x4FC,lexy::code_point::Lu,108,1},
{0x4FD,lexy::code_point::Ll,116,0},
{0x4FE,lexy::code_point::Lu,108,1},
{0x4FF,lexy::code_point::Ll,116,0},
{0x500,lexy::code_point::Lu,108,1},
{0x501,lexy::code_point::Ll,116,0},
{0x502,lexy::code_point::Lu,108,1},
{0x503,lexy::code_point::Ll,116,0},
{0x504,lexy::code_point::Lu,108,1},
{0x505,lexy::code_point::Ll,116,0},
{0x506,lexy::code_point::Lu,108,1},
{0x507,lexy::code_point::Ll,116,0},
{0x508,lexy::code_point::Lu,108,1},
{0x509,lexy::code_point::Ll,116,0},
{0x50A,lexy::code_point::Lu,108,1},
{0x50B,lexy::code_point::Ll,116,0},
{0x50C,lexy::code_point::Lu,108,1},
{0x50D,lexy::code_point::Ll,116,0},
{0x50E,lexy::code_point::Lu,108,1},
{0x50F,lexy::code_point::Ll,116,0},
{0x510,lexy::code_point::Lu,108,1},
{0x511,lexy::code_point::Ll,116,0},
{0x512,lexy::code_point::Lu,108,1},
{0x513,lexy::code_point::Ll,116,0},
{0x514,lexy::code_point::Lu,108,1},
{0x515,lexy::code_point::Ll,116,0},
{0x516,lexy::code_point::Lu,108,1},
{0x517,lexy::code_point::Ll,116,0},
{0x518,lexy::code_point::Lu,108,1},
{0x519,lexy::code_point::Ll,116,0},
{0x51A,lexy::code_point::Lu,108,1},
{0x51B,lexy::code_point::Ll,116,0},
{0x51C,lexy::code_point::Lu,108,1},
{0x51D,lexy::code_point::Ll,116,0},
{0x51E,lexy::code_point::Lu,108,1},
{0x51F,lexy::code_point::Ll,116,0},
{0x520,lexy::code_point::Lu,108,1},
{0x521,lexy::code_point::Ll,116,0},
{0x522,lexy::code_point::Lu,108,1},
{0x523,lexy::code_point::Ll,116,0},
{0x524,lexy::code_point::Lu,108,1},
{0x525,lexy::code_point::Ll,116,0},
{0x526,lexy::code_point::Lu,108,1},
{0x527,lexy::code_point::Ll,116,0},
{0x528,lexy::code_point::Lu,108,1},
{0x529,lexy::code_point::Ll,116,0},
{0x52A,lexy::code_point::Lu,108,1},
{0x52B,lexy::code_point::Ll,116,0},
{0x52C,lexy::code_point::Lu,108,1},
{0x52D,lexy::code_point::Ll,116,0},
{0x52E,lexy::code_point::Lu,108,1},
{0x52F,lexy::code_point::Ll,116,0},
{0x530,lexy::code_point::Cn,0,0},
{0x531,lexy::code_point::Lu,108,48},
{0x557,lexy::code_point::Cn,0,0},
{0x559,lexy::code_point::Lm,100,0},
{0x55A,lexy::code_point::Po,0,0},
{0x560,lexy::code_point::Ll,116,0},
{0x589,lexy::code_point::Po,0,0},
{0x58A,lexy::code_point::Pd,0,0},
{0x58B,lexy::code_point::Cn,0,0},
{0x58D,lexy::code_point::So,0,0},
{0x58F,lexy::code_point::Sc,0,0},
{0x590,lexy::code_point::Cn,0,0},
{0x591,lexy::code_point::Mn,64,0},
{0x5B0,lexy::code_point::Mn,68,0},
{0x5BE,lexy::code_point::Pd,0,0},
{0x5BF,lexy::code_point::Mn,68,0},
{0x5C0,lexy::code_point::Po,0,0},
{0x5C1,lexy::code_point::Mn,68,0},
{0x5C3,lexy::code_point::Po,0,0},
{0x5C4,lexy::code_point::Mn,68,0},
{0x5C6,lexy::code_point::Po,0,0},
{0x5C7,lexy::code_point::Mn,68,0},
{0x5C8,lexy::code_point::Cn,0,0},
{0x5D0,lexy::code_point::Lo,100,0},
{0x5EB,lexy::code_point::Cn,0,0},
{0x5EF,lexy::code_point::Lo,100,0},
{0x5F3,lexy::code_point::Po,0,0},
{0x5F5,lexy::code_point::Cn,0,0},
{0x600,lexy::code_point::Cf,0,0},
{0x606,lexy::code_point::Sm,0,0},
{0x609,lexy::code_point::Po,0,0},
{0x60B,lexy::code_point::Sc,0,0},
{0x60C,lexy::code_point::Po,0,0},
{0x60E,lexy::code_point::So,0,0},
{0x610,lexy::code_point::Mn,68,0},
{0x61B,lexy::code_point::Po,0,0},
{0x61C,lexy::code_point::Cf,0,0},
{0x61D,lexy::code_point::Po,0,0},
{0x620,lexy::code_point::Lo,100,0},
{0x640,lexy::code_point::Lm,100,0},
{0x641,lexy::code_point::Lo,100,0},
{0x64B,lexy::code_point::Mn,68,0},
{0x658,lexy::code_point::Mn,64,0},
{0x659,lexy::code_point::Mn,68,0},
{0x660,lexy::code_point::Nd,64,0},
{0x66A,lexy::code_point::Po,0,0},
{0x66E,lexy::code_point::Lo,100,0},
{0x670,lexy::code_point::Mn,68,0},
{0x671,lexy::code_point::Lo,100,0},
{0x6D4,lexy::code_point::Po,0,0},
{0x6D5,lexy::code_point::Lo,100,0},
{0x6D6,lexy::code_point::Mn,68,0},
{0x6DD,lexy::code_point::Cf,0,0},
{0x6DE,lexy::code_point::So,0,0},
{0x6DF,lexy::code_point::Mn,64,0},
{0x6E1,lexy::code_point::Mn,68,0},
{0x6E5,lexy::code_point::Lm,100,0},
{0x6E7,lexy::code_point::Mn,68,0},
{0x6E9,lexy::code_point::So,0,0},
{0x6EA,lexy::code_point::Mn,64,0},
{0x6ED,lexy::code_point::Mn,68,0},
{0x6EE,lexy::code_point::Lo,100,0},
{0x6F0,lexy::code_point::Nd,64,0},
{0x6FA,lexy::code_point::Lo,100,0},
{0x6FD,lexy::code_point::So,0,0},
{0x6FF,lexy::code_point::Lo,100,0},
{0x700,lexy::code_point::Po,0,0},
{0x70E,lexy::code_point::Cn,0,0},
{0x70F,lexy::code_point::Cf,0,0},
{0x710,lexy::code_point::Lo,100,0},
{0x711,lexy::code_point::Mn,68,0},
{0x712,lexy::code_point::Lo,100,0},
{0x730,lexy::code_point::Mn,68,0},
{0x740,lexy::code_point::Mn,64,0},
{0x74B,lexy::code_point::Cn,0,0},
{0x74D,lexy::code_point::Lo,100,0},
{0x7A6,lexy::code_point::Mn,68,0},
{0x7B1,lexy::code_point::Lo,100,0},
{0x7B2,lexy::code_point::Cn,0,0},
{0x7C0,lexy::code_point::Nd,64,0},
{0x7CA,lexy::code_point::Lo,100,0},
{0x7EB,lexy::code_point::Mn,64,0},
{0x7F4,lexy::code_point::Lm,100,0},
{0x7F6,lexy::code_point::So,0,0},
{0x7F7,lexy::code_point::Po,0,0},
{0x7FA,lexy::code_point::Lm,100,0},
{0x7FB,lexy::code_point::Cn,0,0},
{0x7FD,lexy::code_point::Mn,64,0},
{0x7FE,lexy::code_point::Sc,0,0},
{0x800,lexy::code_point::Lo,100,0},
{0x816,lexy::code_point::Mn,68,0},
{0x818,lexy::code_point::Mn,64,0},
{0x81A,lexy::code_point::Lm,100,0},
{0x81B,lexy::code_point::Mn,68,0},
{0x824,lexy::code_point::Lm,100,0},
{0x825,lexy::code_point::Mn,68,0},
{0x828,lexy::code_point::Lm,100,0},
{0x829,lexy::code_point::Mn,68,0},
{0x82D,lexy::code_point::Mn,64,0},
{0x82E,lexy::code_point::Cn,0,0},
{0x830,lexy::code_point::Po,0,0},
{0x83F,lexy::code_point::Cn,0,0},
{0x840,lexy::code_point::Lo,100,0},
{0x859,lexy::code_point::Mn,64,0},
{0x85C,lexy::code_point::Cn,0,0},
{0x85E,lexy::code_point::Po,0,0},
{0x85F,lexy::code_point::Cn,0,0},
{0x860,lexy::code_point::Lo,100,0},
{0x86B,lexy::code_point::Cn,0,0},
{0x870,lexy::code_point::Lo,100,0},
{0x888,lexy::code_point::Sk,0,0},
{0x889,lexy::code_point::Lo,100,0},
{0x88F,lexy::code_point::Cn,0,0},
{0x890,lexy::code_point::Cf,0,0},
{0x892,lexy::code_point::Cn,0,0},
{0x898,lexy::code_point::Mn,64,0},
{0x8A0,lexy::code_point::Lo,100,0},
{0x8C9,lexy::code_point::Lm,100,0},
{0x8CA,lexy::code_point::Mn,64,0},
{0x8D4,lexy::code_point::Mn,68,0},
{0x8E0,lexy::code_point::Mn,64,0},
{0x8E2,lexy::code_point::Cf,0,0},
{0x8E3,lexy::code_point::Mn,68,0},
{0x8EA,lexy::code_point::Mn,64,0},
{0x8F0,lexy::code_point::Mn,68,0},
{0x903,lexy::code_point::Mc,68,0},
{0x904,lexy::code_point::Lo,100,0},
{0x93A,lexy::code_point::Mn,68,0},
{0x93B,lexy::code_point::Mc,68,0},
{0x93C,lexy::code_point::Mn,64,0},
{0x93D,lexy::code_point::Lo,100,0},
{0x93E,lexy::code_point::Mc,68,0},
{0x941,lexy::code_point::Mn,68,0},
{0x949,lexy::code_point::Mc,68,0},
{0x94D,lexy::code_point::Mn,64,0},
{0x94E,lexy::code_point::Mc,68,0},
{0x950,lexy::code_point::Lo,100,0},
{0x951,lexy::code_point::Mn,64,0},
{0x955,lexy::code_point::Mn,68,0},
{0x958,lexy::code_point::Lo,100,0},
{0x962,lexy::code_point::Mn,68,0},
{0x964,lexy::code_point::Po,0,0},
{0x966,lexy::code_point::Nd,64,0},
{0x970,lexy::code_point::Po,0,0},
{0x971,lexy::code_point::Lm,100,0},
{0x972,lexy::code_point::Lo,100,0},
{0x981,lexy::code_point::Mn,68,0},
{0x982,lexy::code_point::Mc,68,0},
{0x984,lexy::code_point::Cn,0,0},
{0x985,lexy::code_point::Lo,100,0},
{0x98D,lexy::code_point::Cn,0,0},
{0x98F,lexy::code_point::Lo,100,0},
{0x991,lexy::code_point::Cn,0,0},
{0x993,lexy::code_point::Lo,100,0},
{0x9A9,lexy::code_point::Cn,0,0},
{0x9AA,lexy::code_point::Lo,100,0},
{0x9B1,lexy::code_point::Cn,0,0},
{0x9B2,lexy::code_point::Lo,100,0},
{0x9B3,lexy::code_point::Cn,0,0},
{0x9B6,lexy::code_point::Lo,100,0},
{0x9BA,lexy::code_point::Cn,0,0},
{0x9BC,lexy::code_point::Mn,64,0},
{0x9BD,lexy::code_point::Lo,100,0},
{0x9BE,lexy::code_point::Mc,68,0},
{0x9C1,lexy::code_point::Mn,68,0},
{0x9C5,lexy::code_point::Cn,0,0},
{0x9C7,lexy::code_point::Mc,68,0},
{0x9C9,lexy::code_point::Cn,0,0},
{0x9CB,lexy::code_point::Mc,68,0},
{0x9CD,lexy::code_point::Mn,64,0},
{0x9CE,lexy::code_point::Lo,100,0},
{0x9CF,lexy::code_point::Cn,0,0},
{0x9D7,lexy::code_point::Mc,68,0},
{0x9D8,lexy::code_point::Cn,0,0},
{0x9DC,lexy::code_point::Lo,100,0},
{0x9DE,lexy::code_point::Cn,0,0},
{0x9DF,lexy::code_point::Lo,100,0},
{0x9E2,lexy::code_point::Mn,68,0},
{0x9E4,lexy::code_point::Cn,0,0},
{0x9E6,lexy::code_point::Nd,64,0},
{0x9F0,lexy::code_point::Lo,100,0},
{0x9F2,lexy::code_point::Sc,0,0},
{0x9F4,lexy::code_point::No,0,0},
{0x9FA,lexy::code_point::So,0,0},
{0x9FB,lexy::code_point::Sc,0,0},
{0x9FC,lexy::code_point::Lo,100,0},
{0x9FD,lexy::code_point::Po,0,0},
{0x9FE,lexy::code_point::Mn,64,0},
{0x9FF,lexy::code_point::Cn,0,0},
{0xA01,lexy::code_point::Mn,68,0},
{0xA03,lexy::code_point::Mc,68,0},
{0xA04,lexy::code_point::Cn,0,0},
{0xA05,lexy::code_point::Lo,100,0},
{0xA0B,lexy::code_point::Cn,0,0},
{0xA0F,lexy::code_point::Lo,100,0},
{0xA11,lexy::code_point::Cn,0,0},
{0xA13,lexy::code_point::Lo,100,0},
{0xA29,lexy::code_point::Cn,0,0},
{0xA2A,lexy::code_point::Lo,100,0},
{0xA31,lexy::code_point::Cn,0,0},
{0xA32,lexy::code_point::Lo,100,0},
{0xA34,lexy::code_point::Cn,0,0},
{0xA35,lexy::code_point::Lo,100,0},
{0xA37,lexy::code_point::Cn,0,0},
{0xA38,lexy::code_point::Lo,100,0},
{0xA3A,lexy::code_point::Cn,0,0},
{0xA3C,lexy::code_point::Mn,64,0},
{0xA3D,lexy::code_point::Cn,0,0},
{0xA3E,lexy::code_point::Mc,68,0},
{0xA41,lexy::code_point::Mn,68,0},
{0xA43,lexy::code_point::Cn,0,0},
{0xA47,lexy::code_point::Mn,68,0},
{0xA49,lexy::code_point::Cn,0,0},
{0xA4B,lexy::code_point::Mn,68,0},
{0xA4D,lexy::code_point::Mn,64,0},
{0xA4E,lexy::code_point::Cn,0,0},
{0xA51,lexy::code_point::Mn,68,0},
{0xA52,lexy::code_point::Cn,0,0},
{0xA59,lexy::code_point::Lo,100,0},
{0xA5D,lexy::code_point::Cn,0,0},
{0xA5E,lexy::code_point::Lo,100,0},
{0xA5F,lexy::code_point::Cn,0,0},
{0xA66,lexy::code_point::Nd,64,0},
{0xA70,lexy::code_point::Mn,68,0},
{0xA72,lexy::code_point::Lo,100,0},
{0xA75,lexy::code_point::Mn,68,0},
{0xA76,lexy::code_point::Po,0,0},
{0xA77,lexy::code_point::Cn,0,0},
{0xA81,lexy::code_point::Mn,68,0},
{0xA83,lexy::code_point::Mc,68,0},
{0xA84,lexy::code_point::Cn,0,0},
{0xA85,lexy::code_point::Lo,100,0},
{0xA8E,lexy::code_point::Cn,0,0},
{0xA8F,lexy::code_point::Lo,100,0},
{0xA92,lexy::code_point::Cn,0,0},
{0xA93,lexy::code_point::Lo,100,0},
{0xAA9,lexy::code_point::Cn,0,0},
{0xAAA,lexy::code_point::Lo,100,0},
{0xAB1,lexy::code_point::Cn,0,0},
{0xAB2,lexy::code_point::Lo,100,0},
{0xAB4,lexy::code_point::Cn,0,0},
{0xAB5,lexy::code_point::Lo,100,0},
{0xABA,lexy::code_point::Cn,0,0},
{0xABC,lexy::code_point::Mn,64,0},
{0xABD,lexy::code_point::Lo,100,0},
{0xABE,lexy::code_point::Mc,68,0},
{0xAC1,lexy::code_point::Mn,68,0},
{0xAC6,lexy::code_point::Cn,0,0},
{0xAC7,lexy::code_point::Mn,68,0},
{0xAC9,lexy::code_point::Mc,68,0},
{0xACA,lexy::code_point::Cn,0,0},
{0xACB,lexy::code_point::Mc,68,0},
{0xACD,lexy::code_point::Mn,64,0},
{0xACE,lexy::code_point::Cn,0,0},
{0xAD0,lexy::code_point::Lo,100,0},
{0xAD1,lexy::code_point::Cn,0,0},
{0xAE0,lexy::code_point::Lo,100,0},
{0xAE2,lexy::code_point::Mn,68,0},
{0xAE4,lexy::code_point::Cn,0,0},
{0xAE6,lexy::code_point::Nd,64,0},
{0xAF0,lexy::code_point::Po,0,0},
{0xAF1,lexy::code_point::Sc,0,0},
{0xAF2,lexy::code_point::Cn,0,0},
{0xAF9,lexy::code_point::Lo,100,0},
{0xAFA,lexy::code_point::Mn,68,0},
{0xAFD,lexy::code_point::Mn,64,0},
{0xB00,lexy::code_point::Cn,0,0},
{0xB01,lexy::code_point::Mn,68,0},
{0xB02,lexy::code_point::Mc,68,0},
{0xB04,lexy::code_point::Cn,0,0},
{0xB05,lexy::code_point::Lo,100,0},
{0xB0D,lexy::code_point::Cn,0,0},
{0xB0F,lexy::code_point::Lo,100,0},
{0xB11,lexy::code_point::Cn,0,0},
{0xB13,lexy::code_point::Lo,100,0},
{0xB29,lexy::code_point::Cn,0,0},
{0xB2A,lexy::code_point::Lo,100,0},
{0xB31,lexy::code_point::Cn,0,0},
{0xB32,lexy::code_point::Lo,100,0},
{0xB34,lexy::code_point::Cn,0,0},
{0xB35,lexy::code_point::Lo,100,0},
{0xB3A,lexy::code_point::Cn,0,0},
{0xB3C,lexy::code_point::Mn,64,0},
{0xB3D,lexy::code_point::Lo,100,0},
{0xB3E,lexy::code_point::Mc,68,0},
{0xB3F,lexy::code_point::Mn,68,0},
{0xB40,lexy::code_point::Mc,68,0},
{0xB41,lexy::code_point::Mn,68,0},
{0xB45,lexy::code_point::Cn,0,0},
{0xB47,lexy::code_point::Mc,68,0},
{0xB49,lexy::code_point::Cn,0,0},
{0xB4B,lexy::code_point::Mc,68,0},
{0xB4D,lexy::code_point::Mn,64,0},
{0xB4E,lexy::code_point::Cn,0,0},
{0xB55,lexy::code_point::Mn,64,0},
{0xB56,lexy::code_point::Mn,68,0},
{0xB57,lexy::code_point::Mc,68,0},
{0xB58,lexy::code_point::Cn,0,0},
{0xB5C,lexy::code_point::Lo,100,0},
{0xB5E,lexy::code_point::Cn,0,0},
{0xB5F,lexy::code_point::Lo,100,0},
{0xB62,lexy::code_point::Mn,68,0},
{0xB64,lexy::code_point::Cn,0,0},
{0xB66,lexy::code_point::Nd,64,0},
{0xB70,lexy::code_point::So,0,0},
{0xB71,lexy::code_point::Lo,100,0},
{0xB72,lexy::code_point::No,0,0},
{0xB78,lexy::code_point::Cn,0,0},
{0xB82,lexy::code_point::Mn,68,0},
{0xB83,lexy::code_point::Lo,100,0},
{0xB84,lexy::code_point::Cn,0,0},
{0xB85,lexy::code_point::Lo,100,0},
{0xB8B,lexy::code_point::Cn,0,0},
{0xB8E,lexy::code_point::Lo,100,0},
{0xB91,lexy::code_point::Cn,0,0},
{0xB92,lexy::code_point::Lo,100,0},
{0xB96,lexy::code_point::Cn,0,0},
{0xB99,lexy::code_point::Lo,100,0},
{0xB9B,lexy::code_point::Cn,0,0},
{0xB9C,lexy::code_point::Lo,100,0},
{0xB9D,lexy::code_point::Cn,0,0},
{0xB9E,lexy::code_point::Lo,100,0},
{0xBA0,lexy::code_point::Cn,0,0},
{0xBA3,lexy::code_point::Lo,100,0},
{0xBA5,lexy::code_point::Cn,0,0},
{0xBA8,lexy::code_point::Lo,100,0},
{0xBAB,lexy::code_point::Cn,0,0},
{0xBAE,lexy::code_point::Lo,100,0},
{0xBBA,lexy::code_point::Cn,0,0},
{0xBBE,lexy::code_point::Mc,68,0},
{0xBC0,lexy::code_point::Mn,68,0},
{0xBC1,lexy::code_point::Mc,68,0},
{0xBC3,lexy::code_point::Cn,0,0},
{0xBC6,lexy::code_point::Mc,68,0},
{0xBC9,lexy::code_point::Cn,0,0},
{0xBCA,lexy::code_point::Mc,68,0},
{0xBCD,lexy::code_point::Mn,64,0},
{0xBCE,lexy::code_point::Cn,0,0},
{0xBD0,lexy::code_point::Lo,100,0},
{0xBD1,lexy::code_point::Cn,0,0},
{0xBD7,lexy::code_point::Mc,68,0},
{0xBD8,lexy::code_point::Cn,0,0},
{0xBE6,lexy::code_point::Nd,64,0},
{0xBF0,lexy::code_point::No,0,0},
{0xBF3,lexy::code_point::So,0,0},
{0xBF9,lexy::code_point::Sc,0,0},
{0xBFA,lexy::code_point::So,0,0},
{0xBFB,lexy::code_point::Cn,0,0},
{0xC00,lexy::code_point::Mn,68,0},
{0xC01,lexy::code_point::Mc,68,0},
{0xC04,lexy::code_point::Mn,68,0},
{0xC05,lexy::code_point::Lo,100,0},
{0xC0D,lexy::code_point::Cn,0,0},
{0xC0E,lexy::code_point::Lo,100,0},
{0xC11,lexy::code_point::Cn,0,0},
{0xC12,lexy::code_point::Lo,100,0},
{0xC29,lexy::code_point::Cn,0,0},
{0xC2A,lexy::code_point::Lo,100,0},
{0xC3A,lexy::code_point::Cn,0,0},
{0xC3C,lexy::code_point::Mn,64,0},
{0xC3D,lexy::code_point::Lo,100,0},
{0xC3E,lexy::code_point::Mn,68,0},
{0xC41,lexy::code_point::Mc,68,0},
{0xC45,lexy::code_point::Cn,0,0},
{0xC46,lexy::code_point::Mn,68,0},
{0xC49,lexy::code_point::Cn,0,0},
{0xC4A,lexy::code_point::Mn,68,0},
{0xC4D,lexy::code_point::Mn,64,0},
{0xC4E,lexy::code_point::Cn,0,0},
{0xC55,lexy::code_point::Mn,68,0},
{0xC57,lexy::code_point::Cn,0,0},
{0xC58,lexy::code_point::Lo,100,0},
{0xC5B,lexy::code_point::Cn,0,0},
{0xC5D,lexy::code_point::Lo,100,0},
{0xC5E,lexy::code_point::Cn,0,0},
{0xC60,lexy::code_point::Lo,100,0},
{0xC62,lexy::code_point::Mn,68,0},
{0xC64,lexy::code_point::Cn,0,0},
{0xC66,lexy::code_point::Nd,64,0},
{0xC70,lexy::code_point::Cn,0,0},
{0xC77,lexy::code_point::Po,0,0},
{0xC78,lexy::code_point::No,0,0},
{0xC7F,lexy::code_point::So,0,0},
{0xC80,lexy::code_point::Lo,100,0},
{0xC81,lexy::code_point::Mn,68,0},
{0xC82,lexy::code_point::Mc,68,0},
{0xC84,lexy::code_point::Po,0,0},
{0xC85,lexy::code_point::Lo,100,0},
{0xC8D,lexy::code_point::Cn,0,0},
{0xC8E,lexy::code_point::Lo,100,0},
{0xC91,lexy::code_point::Cn,0,0},
{0xC92,lexy::code_point::Lo,100,0},
{0xCA9,lexy::code_point::Cn,0,0},
{0xCAA,lexy::code_point::Lo,100,0},
{0xCB4,lexy::code_point::Cn,0,0},
{0xCB5,lexy::code_point::Lo,100,0},
{0xCBA,lexy::code_point::Cn,0,0},
{0xCBC,lexy::code_point::Mn,64,0},
{0xCBD,lexy::code_point::Lo,100,0},
{0xCBE,lexy::code_point::Mc,68,0},
{0xCBF,lexy::code_point::Mn,68,0},
{0xCC0,lexy::code_point::Mc,68,0},
{0xCC5,lexy::code_point::Cn,0,0},
{0xCC6,lexy::code_point::Mn,68,0},
{0xCC7,lexy::code_point::Mc,68,0},
{0xCC9,lexy::code_point::Cn,0,0},
{0xCCA,lexy::code_point::Mc,68,0},
{0xCCC,lexy::code_point::Mn,68,0},
{0xCCD,lexy::code_point::Mn,64,0},
{0xCCE,lexy::code_point::Cn,0,0},
{0xCD5,lexy::code_point::Mc,68,0},
{0xCD7,lexy::code_point::Cn,0,0},
{0xCDD,lexy::code_point::Lo,100,0},
{0xCDF,lexy::code_point::Cn,0,0},
{0xCE0,lexy::code_point::Lo,100,0},
{0xCE2,lexy::code_point::Mn,68,0},
{0xCE4,lexy::code_point::Cn,0,0},
{0xCE6,lexy::code_point::Nd,64,0},
{0xCF0,lexy::code_point::Cn,0,0},
{0xCF1,lexy::code_point::Lo,100,0},
{0xCF3,lexy::code_point::Mc,68,0},
{0xCF4,lexy::code_point::Cn,0,0},
{0xD00,lexy::code_point::Mn,68,0},
{0xD02,lexy::code_point::Mc,68,0},
{0xD04,lexy::code_point::Lo,100,0},
{0xD0D,lexy::code_point::Cn,0,0},
{0xD0E,lexy::code_point::Lo,100,0},
{0xD11,lexy::code_point::Cn,0,0},
{0xD12,lexy::code_point::Lo,100,0},
{0xD3B,lexy::code_point::Mn,64,0},
{0xD3D,lexy::code_point::Lo,100,0},
{0xD3E,lexy::code_point::Mc,68,0},
{0xD41,lexy::code_point::Mn,68,0},
{0xD45,lexy::code_point::Cn,0,0},
{0xD46,lexy::code_point::Mc,68,0},
{0xD49,lexy::code_point::Cn,0,0},
{0xD4A,lexy::code_point::Mc,68,0},
{0xD4D,lexy::code_point::Mn,64,0},
{0xD4E,lexy::code_point::Lo,100,0},
{0xD4F,lexy::code_point::So,0,0},
{0xD50,lexy::code_point::Cn,0,0},
{0xD54,lexy::code_point::Lo,100,0},
{0xD57,lexy::code_point::Mc,68,0},
{0xD58,lexy::code_point::No,0,0},
{0xD5F,lexy::code_point::Lo,100,0},
{0xD62,lexy::code_point::Mn,68,0},
{0xD64,lexy::code_point::Cn,0,0},
{0xD66,lexy::code_point::Nd,64,0},
{0xD70,lexy::code_point::No,0,0},
{0xD79,lexy::code_point::So,0,0},
{0xD7A,lexy::code_point::Lo,100,0},
{0xD80,lexy::code_point::Cn,0,0},
{0xD81,lexy::code_point::Mn,68,0},
{0xD82,lexy::code_point::Mc,68,0},
{0xD84,lexy::code_point::Cn,0,0},
{0xD85,lexy::code_point::Lo,100,0},
{0xD97,lexy::code_point::Cn,0,0},
{0xD9A,lexy::code_point::Lo,100,0},
{0xDB2,lexy::code_point::Cn,0,0},
{0xDB3,lexy::code_point::Lo,100,0},
{0xDBC,lexy::code_point::Cn,0,0},
{0xDBD,lexy::code_point::Lo,100,0},
{0xDBE,lexy::code_point::Cn,0,0},
{0xDC0,lexy::code_point::Lo,100,0},
{0xDC7,lexy::code_point::Cn,0,0},
{0xDCA,lexy::code_point::Mn,64,0},
{0xDCB,lexy::code_point::Cn,0,0},
{0xDCF,lexy::code_point::Mc,68,0},
{0xDD2,lexy::code_point::Mn,68,0},
{0xDD5,lexy::code_point::Cn,0,0},
{0xDD6,lexy::code_point::Mn,68,0},
{0xDD7,lexy::code_point::Cn,0,0},
{0xDD8,lexy::code_point::Mc,68,0},
{0xDE0,lexy::code_point::Cn,0,0},
{0xDE6,lexy::code_point::Nd,64,0},
{0xDF0,lexy::code_point::Cn,0,0},
{0xDF2,lexy::code_point::Mc,68,0},
{0xDF4,lexy::code_point::Po,0,0},
{0xDF5,lexy::code_point::Cn,0,0},
{0xE01,lexy::code_point::Lo,100,0},
{0xE31,lexy::code_point::Mn,68,0},
{0xE32,lexy::code_point::Lo,100,0},
{0xE33,lexy::code_point::Lo,68,0},
{0xE34,lexy::code_point::Mn,68,0},
{0xE3B,lexy::code_point::Cn,0,0},
{0xE3F,lexy::code_point::Sc,0,0},
{0xE40,lexy::code_point::Lo,100,0},
{0xE46,lexy::code_point::Lm,100,0},
{0xE47,lexy::code_point::Mn,64,0},
{0xE4D,lexy::code_point::Mn,68,0},
{0xE4E,lexy::code_point::Mn,64,0},
{0xE4F,lexy::code_point::Po,0,0},
{0xE50,lexy::code_point::Nd,64,0},
{0xE5A,lexy::code_point::Po,0,0},
{0xE5C,lexy::code_point::Cn,0,0},
{0xE81,lexy::code_point::Lo,100,0},
{0xE83,lexy::code_point::Cn,0,0},
{0xE84,lexy::code_point::Lo,100,0},
{0xE85,lexy::code_point::Cn,0,0},
{0xE86,lexy::code_point::Lo,100,0},
{0xE8B,lexy::code_point::Cn,0,0},
{0xE8C,lexy::code_point::Lo,100,0},
{0xEA4,lexy::code_point::Cn,0,0},
{0xEA5,lexy::code_point::Lo,100,0},
{0xEA6,lexy::code_point::Cn,0,0},
{0xEA7,lexy::code_point::Lo,100,0},
{0xEB1,lexy::code_point::Mn,68,0},
{0xEB2,lexy::code_point::Lo,100,0},
{0xEB3,lexy::code_point::Lo,68,0},
{0xEB4,lexy::code_point::Mn,68,0},
{0xEBA,lexy::code_point::Mn,64,0},
{0xEBB,lexy::code_point::Mn,68,0},
{0xEBD,lexy::code_point::Lo,100,0},
{0xEBE,lexy::code_point::Cn,0,0},
{0xEC0,lexy::code_point::Lo,100,0},
{0xEC5,lexy::code_point::Cn,0,0},
{0xEC6,lexy::code_point::Lm,100,0},
{0xEC7,lexy::code_point::Cn,0,0},
{0xEC8,lexy::code_point::Mn,64,0},
{0xECD,lexy::code_point::Mn,68,0},
{0xECE,lexy::code_point::Mn,64,0},
{0xECF,lexy::code_point::Cn,0,0},
{0xED0,lexy::code_point::Nd,64,0},
{0xEDA,lexy::code_point::Cn,0,0},
{0xEDC,lexy::code_point::Lo,100,0},
{0xEE0,lexy::code_point::Cn,0,0},
{0xF00,lexy::code_point::Lo,100,0},
{0xF01,lexy::code_point::So,0,0},
{0xF04,lexy::code_point::Po,0,0},
{0xF13,lexy::code_point::So,0,0},
{0xF14,lexy::code_point::Po,0,0},
{0xF15,lexy::code_point::So,0,0},
{0xF18,lexy::code_point::Mn,64,0},
{0xF1A,lexy::code_point::So,0,0},
{0xF20,lexy::code_point::Nd,64,0},
{0xF2A,lexy::code_point::No,0,0},
{0xF34,lexy::code_point::So,0,0},
{0xF35,lexy::code_point::Mn,64,0},
{0xF36,lexy::code_point::So,0,0},
{0xF37,lexy::code_point::Mn,64,0},
{0xF38,lexy::code_point::So,0,0},
{0xF39,lexy::code_point::Mn,64,0},
{0xF3A,lexy::code_point::Ps,0,0},
{0xF3B,lexy::code_point::Pe,0,0},
{0xF3C,lexy::code_point::Ps,0,0},
{0xF3D,lexy::code_point::Pe,0,0},
{0xF3E,lexy::code_point::Mc,64,0},
{0xF40,lexy::code_point::Lo,100,0},
{0xF48,lexy::code_point::Cn,0,0},
{0xF49,lexy::code_point::Lo,100,0},
{0xF6D,lexy::code_point::Cn,0,0},
{0xF71,lexy::code_point::Mn,68,0},
{0xF7F,lexy::code_point::Mc,68,0},
{0xF80,lexy::code_point::Mn,68,0},
{0xF84,lexy::code_point::Mn,64,0},
{0xF85,lexy::code_point::Po,0,0},
{0xF86,lexy::code_point::Mn,64,0},
{0xF88,lexy::code_point::Lo,100,0},
{0xF8D,lexy::code_point::Mn,68,0},
{0xF98,lexy::code_point::Cn,0,0},
{0xF99,lexy::code_point::Mn,68,0},
{0xFBD,lexy::code_point::Cn,0,0},
{0xFBE,lexy::code_point::So,0,0},
{0xFC6,lexy::code_point::Mn,64,0},
{0xFC7,lexy::code_point::So,0,0},
{0xFCD,lexy::code_point::Cn,0,0},
{0xFCE,lexy::code_point::So,0,0},
{0xFD0,lexy::code_point::Po,0,0},
{0xFD5,lexy::code_point::So,0,0},
{0xFD9,lexy::code_point::Po,0,0},
{0xFDB,lexy::code_point::Cn,0,0},
{0x1000,lexy::code_point::Lo,100,0},
{0x102B,lexy::code_point::Mc,68,0},
{0x102D,lexy::code_point::Mn,68,0},
{0x1031,lexy::code_point::Mc,68,0},
{0x1032,lexy::code_point::Mn,68,0},
{0x1037,lexy::code_point::Mn,64,0},
{0x1038,lexy::code_point::Mc,68,0},
{0x1039,lexy::code_point::Mn,64,0},
{0x103B,lexy::code_point::Mc,68,0},
{0x103D,lexy::code_point::Mn,68,0},
{0x103F,lexy::code_point::Lo,100,0},
{0x1040,lexy::code_point::Nd,64,0},
{0x104A,lexy::code_point::Po,0,0},
{0x1050,lexy::code_point::Lo,100,0},
{0x1056,lexy::code_point::Mc,68,0},
{0x1058,lexy::code_point::Mn,68,0},
{0x105A,lexy::code_point::Lo,100,0},
{0x105E,lexy::code_point::Mn,68,0},
{0x1061,lexy::code_point::Lo,100,0},
{0x1062,lexy::code_point::Mc,68,0},
{0x1065,lexy::code_point::Lo,100,0},
{0x1067,lexy::code_point::Mc,68,0},
{0x106E,lexy::code_point::Lo,100,0},
{0x1071,lexy::code_point::Mn,68,0},
{0x1075,lexy::code_point::Lo,100,0},
{0x1082,lexy::code_point::Mn,68,0},
{0x1083,lexy::code_point::Mc,68,0},
{0x1085,lexy::code_point::Mn,68,0},
{0x1087,lexy::code_point::Mc,68,0},
{0x108D,lexy::code_point::Mn,68,0},
{0x108E,lexy::code_point::Lo,100,0},
{0x108F,lexy::code_point::Mc,68,0},
{0x1090,lexy::code_point::Nd,64,0},
{0x109A,lexy::code_point::Mc,68,0},
{0x109D,lexy::code_point::Mn,68,0},
{0x109E,lexy::code_point::So,0,0},
{0x10A0,lexy::code_point::Lu,108,7264},
{0x10C6,lexy::code_point::Cn,0,0},
{0x10C7,lexy::code_point::Lu,108,7264},
{0x10C8,lexy::code_point::Cn,0,0},
{0x10CD,lexy::code_point::Lu,108,7264},
{0x10CE,lexy::code_point::Cn,0,0},
{0x10D0,lexy::code_point::Ll,116,0},
{0x10FB,lexy::code_point::Po,0,0},
{0x10FC,lexy::code_point::Lm,116,0},
{0x10FD,lexy::code_point::Ll,116,0},
{0x1100,lexy::code_point::Lo,100,0},
{0x1249,lexy::code_point::Cn,0,0},
{0x124A,lexy::code_point::Lo,100,0},
{0x124E,lexy::code_point::Cn,0,0},
{0x1250,lexy::code_point::Lo,100,0},
{0x1257,lexy::code_point::Cn,0,0},
{0x1258,lexy::code_point::Lo,100,0},
{0x1259,lexy::code_point::Cn,0,0},
{0x125A,lexy::code_point::Lo,100,0},
{0x125E,lexy::code_point::Cn,0,0},
{0x1260,lexy::code_point::Lo,100,0},
{0x1289,lexy::code_point::Cn,0,0},
{0x128A,lexy::code_point::Lo,100,0},
{0x128E,lexy::code_point::Cn,0,0},
{0x1290,lexy::code_point::Lo,100,0},
{0x12B1,lexy::code_point::Cn,0,0},
{0x12B2,lexy::code_point::Lo,100,0},
{0x12B6,lexy::code_point::Cn,0,0},
{0x12B8,lexy::code_point::Lo,100,0},
{0x12BF,lexy::code_point::Cn,0,0},
{0x12C0,lexy::code_point::Lo,100,0},
{0x12C1,lexy::code_point::Cn,0,0},
{0x12C2,lexy::code_point::Lo,100,0},
{0x12C6,lexy::code_point::Cn,0,0},
{0x12C8,lexy::code_point::Lo,100,0},
{0x12D7,lexy::code_point::Cn,0,0},
{0x12D8,lexy::code_point::Lo,100,0},
{0x1311,lexy::code_point::Cn,0,0},
{0x1312,lexy::code_point::Lo,100,0},
{0x1316,lexy::code_point::Cn,0,0},
{0x1318,lexy::code_point::Lo,100,0},
{0x135B,lexy::code_point::Cn,0,0},
{0x135D,lexy::code_point::Mn,64,0},
{0x1360,lexy::code_point::Po,0,0},
{0x1369,lexy::code_point::No,64,0},
{0x1372,lexy::code_point::No,0,0},
{0x137D,lexy::code_point::Cn,0,0},
{0x1380,lexy::code_point::Lo,100,0},
{0x1390,lexy::code_point::So,0,0},
{0x139A,lexy::code_point::Cn,0,0},
{0x13A0,lexy::code_point::Lu,108,0},
{0x13F6,lexy::code_point::Cn,0,0},
{0x13F8,lexy::code_point::Ll,116,-8},
{0x13FE,lexy::code_point::Cn,0,0},
{0x1400,lexy::code_point::Pd,0,0},
{0x1401,lexy::code_point::Lo,100,0},
{0x166D,lexy::code_point::So,0,0},
{0x166E,lexy::code_point::Po,0,0},
{0x166F,lexy::code_point::Lo,100,0},
{0x1680,lexy::code_point::Zs,1,0},
{0x1681,lexy::code_point::Lo,100,0},
{0x169B,lexy::code_point::Ps,0,0},
{0x169C,lexy::code_point::Pe,0,0},
{0x169D,lexy::code_point::Cn,0,0},
{0x16A0,lexy::code_point::Lo,100,0},
{0x16EB,lexy::code_point::Po,0,0},
{0x16EE,lexy::code_point::Nl,100,0},
{0x16F1,lexy::code_point::Lo,100,0},
{0x16F9,lexy::code_point::Cn,0,0},
{0x1700,lexy::code_point::Lo,100,0},
{0x1712,lexy::code_point::Mn,68,0},
{0x1714,lexy::code_point::Mn,64,0},
{0x1715,lexy::code_point::Mc,64,0},
{0x1716,lexy::code_point::Cn,0,0},
{0x171F,lexy::code_point::Lo,100,0},
{0x1732,lexy::code_point::Mn,68,0},
{0x1734,lexy::code_point::Mc,64,0},
{0x1735,lexy::code_point::Po,0,0},
{0x1737,lexy::code_point::Cn,0,0},
{0x1740,lexy::code_point::Lo,100,0},
{0x1752,lexy::code_point::Mn,68,0},
{0x1754,lexy::code_point::Cn,0,0},
{0x1760,lexy::code_point::Lo,100,0},
{0x176D,lexy::code_point::Cn,0,0},
{0x176E,lexy::code_point::Lo,100,0},
{0x1771,lexy::code_point::Cn,0,0},
{0x1772,lexy::code_point::Mn,68,0},
{0x1774,lexy::code_point::Cn,0,0},
{0x1780,lexy::code_point::Lo,100,0},
{0x17B4,lexy::code_point::Mn,64,0},
{0x17B6,lexy::code_point::Mc,68,0},
{0x17B7,lexy::code_point::Mn,68,0},
{0x17BE,lexy::code_point::Mc,68,0},
{0x17C6,lexy::code_point::Mn,68,0},
{0x17C7,lexy::code_point::Mc,68,0},
{0x17C9,lexy::code_point::Mn,64,0},
{0x17D4,lexy::code_point::Po,0,0},
{0x17D7,lexy::code_point::Lm,100,0},
{0x17D8,lexy::code_point::Po,0,0},
{0x17DB,lexy::code_point::Sc,0,0},
{0x17DC,lexy::code_point::Lo,100,0},
{0x17DD,lexy::code_point::Mn,64,0},
{0x17DE,lexy::code_point::Cn,0,0},
{0x17E0,lexy::code_point::Nd,64,0},
{0x17EA,lexy::code_point::Cn,0,0},
{0x17F0,lexy::code_point::No,0,0},
{0x17FA,lexy::code_point::Cn,0,0},
{0x1800,lexy::code_point::Po,0,0},
{0x1806,lexy::code_point::Pd,0,0},
{0x1807,lexy::code_point::Po,0,0},
{0x180B,lexy::code_point::Mn,64,0},
{0x180E,lexy::code_point::Cf,0,0},
{0x180F,lexy::code_point::Mn,64,0},
{0x1810,lexy::code_point::Nd,64,0},
{0x181A,lexy::code_point::Cn,0,0},
{0x1820,lexy::code_point::Lo,100,0},
{0x1843,lexy::code_point::Lm,100,0},
{0x1844,lexy::code_point::Lo,100,0},
{0x1879,lexy::code_point::Cn,0,0},
{0x1880,lexy::code_point::Lo,100,0},
{0x1885,lexy::code_point::Mn,100,0},
{0x1887,lexy::code_point::Lo,100,0},
{0x18A9,lexy::code_point::Mn,68,0},
{0x18AA,lexy::code_point::Lo,100,0},
{0x18AB,lexy::code_point::Cn,0,0},
{0x18B0,lexy::code_point::Lo,100,0},
{0x18F6,lexy::code_point::Cn,0,0},
{0x1900,lexy::code_point::Lo,100,0},
{0x191F,lexy::code_point::Cn,0,0},
{0x1920,lexy::code_point::Mn,68,0},
{0x1923,lexy::code_point::Mc,68,0},
{0x1927,lexy::code_point::Mn,68,0},
{0x1929,lexy::code_point::Mc,68,0},
{0x192C,lexy::code_point::Cn,0,0},
{0x1930,lexy::code_point::Mc,68,0},
{0x1932,lexy::code_point::Mn,68,0},
{0x1933,lexy::code_point::Mc,68,0},
{0x1939,lexy::code_point::Mn,64,0},
{0x193C,lexy::code_point::Cn,0,0},
{0x1940,lexy::code_point::So,0,0},
{0x1941,lexy::code_point::Cn,0,0},
{0x1944,lexy::code_point::Po,0,0},
{0x1946,lexy::code_point::Nd,64,0},
{0x1950,lexy::code_point::Lo,100,0},
{0x196E,lexy::code_point::Cn,0,0},
{0x1970,lexy::code_point::Lo,100,0},
{0x1975,lexy::code_point::Cn,0,0},
{0x1980,lexy::code_point::Lo,100,0},
{0x19AC,lexy::code_point::Cn,0,0},
{0x19B0,lexy::code_point::Lo,100,0},
{0x19CA,lexy::code_point::Cn,0,0},
{0x19D0,lexy::code_point::Nd,64,0},
{0x19DA,lexy::code_point::No,64,0},
{0x19DB,lexy::code_point::Cn,0,0},
{0x19DE,lexy::code_point::So,0,0},
{0x1A00,lexy::code_point::Lo,100,0},
{0x1A17,lexy::code_point::Mn,68,0},
{0x1A19,lexy::code_point::Mc,68,0},
{0x1A1B,lexy::code_point::Mn,68,0},
{0x1A1C,lexy::code_point::Cn,0,0},
{0x1A1E,lexy::code_point::Po,0,0},
{0x1A20,lexy::code_point::Lo,100,0},
{0x1A55,lexy::code_point::Mc,68,0},
{0x1A56,lexy::code_point::Mn,68,0},
{0x1A57,lexy::code_point::Mc,68,0},
{0x1A58,lexy::code_point::Mn,68,0},
{0x1A5F,lexy::code_point::Cn,0,0},
{0x1A60,lexy::code_point::Mn,64,0},
{0x1A61,lexy::code_point::Mc,68,0},
{0x1A62,lexy::code_point::Mn,68,0},
{0x1A63,lexy::code_point::Mc,68,0},
{0x1A65,lexy::code_point::Mn,68,0},
{0x1A6D,lexy::code_point::Mc,68,0},
{0x1A73,lexy::code_point::Mn,68,0},
{0x1A75,lexy::code_point::Mn,64,0},
{0x1A7D,lexy::code_point::Cn,0,0},
{0x1A7F,lexy::code_point::Mn,64,0},
{0x1A80,lexy::code_point::Nd,64,0},
{0x1A8A,lexy::code_point::Cn,0,0},
{0x1A90,lexy::code_point::Nd,64,0},
{0x1A9A,lexy::code_point::Cn,0,0},
{0x1AA0,lexy::code_point::Po,0,0},
{0x1AA7,lexy::code_point::Lm,100,0},
{0x1AA8,lexy::code_point::Po,0,0},
{0x1AAE,lexy::code_point::Cn,0,0},
{0x1AB0,lexy::code_point::Mn,64,0},
{0x1ABE,lexy::code_point::Me,0,0},
{0x1ABF,lexy::code_point::Mn,68,0},
{0x1AC1,lexy::code_point::Mn,64,0},
{0x1ACC,lexy::code_point::Mn,68,0},
{0x1ACF,lexy::code_point::Cn,0,0},
{0x1B00,lexy::code_point::Mn,68,0},
{0x1B04,lexy::code_point::Mc,68,0},
{0x1B05,lexy::code_point::Lo,100,0},
{0x1B34,lexy::code_point::Mn,64,0},
{0x1B35,lexy::code_point::Mc,68,0},
{0x1B36,lexy::code_point::Mn,68,0},
{0x1B3B,lexy::code_point::Mc,68,0},
{0x1B3C,lexy::code_point::Mn,68,0},
{0x1B3D,lexy::code_point::Mc,68,0},
{0x1B42,lexy::code_point::Mn,68,0},
{0x1B43,lexy::code_point::Mc,68,0},
{0x1B44,lexy::code_point::Mc,64,0},
{0x1B45,lexy::code_point::Lo,100,0},
{0x1B4D,lexy::code_point::Cn,0,0},
{0x1B50,lexy::code_point::Nd,64,0},
{0x1B5A,lexy::code_point::Po,0,0},
{0x1B61,lexy::code_point::So,0,0},
{0x1B6B,lexy::code_point::Mn,64,0},
{0x1B74,lexy::code_point::So,0,0},
{0x1B7D,lexy::code_point::Po,0,0},
{0x1B7F,lexy::code_point::Cn,0,0},
{0x1B80,lexy::code_point::Mn,68,0},
{0x1B82,lexy::code_point::Mc,68,0},
{0x1B83,lexy::code_point::Lo,100,0},
{0x1BA1,lexy::code_point::Mc,68,0},
{0x1BA2,lexy::code_point::Mn,68,0},
{0x1BA6,lexy::code_point::Mc,68,0},
{0x1BA8,lexy::code_point::Mn,68,0},
{0x1BAA,lexy::code_point::Mc,64,0},
{0x1BAB,lexy::code_point::Mn,64,0},
{0x1BAC,lexy::code_point::Mn,68,0},
{0x1BAE,lexy::code_point::Lo,100,0},
{0x1BB0,lexy::code_point::Nd,64,0},
{0x1BBA,lexy::code_point::Lo,100,0},
{0x1BE6,lexy::code_point::Mn,64,0},
{0x1BE7,lexy::code_point::Mc,68,0},
{0x1BE8,lexy::code_point::Mn,68,0},
{0x1BEA,lexy::code_point::Mc,68,0},
{0x1BED,lexy::code_point::Mn,68,0},
{0x1BEE,lexy::code_point::Mc,68,0},
{0x1BEF,lexy::code_point::Mn,68,0},
{0x1BF2,lexy::code_point::Mc,64,0},
{0x1BF4,lexy::code_point::Cn,0,0},
{0x1BFC,lexy::code_point::Po,0,0},
{0x1C00,lexy::code_point::Lo,100,0},
{0x1C24,lexy::code_point::Mc,68,0},
{0x1C2C,lexy::code_point::Mn,68,0},
{0x1C34,lexy::code_point::Mc,68,0},
{0x1C36,lexy::code_point::Mn,68,0},
{0x1C37,lexy::code_point::Mn,64,0},
{0x1C38,lexy::code_point::Cn,0,0},
{0x1C3B,lexy::code_point::Po,0,0},
{0x1C40,lexy::code_point::Nd,64,0},
{0x1C4A,lexy::code_point::Cn,0,0},
{0x1C4D,lexy::code_point::Lo,100,0},
{0x1C50,lexy::code_point::Nd,64,0},
{0x1C5A,lexy::code_point::Lo,100,0},
{0x1C78,lexy::code_point::Lm,100,0},
{0x1C7E,lexy::code_point::Po,0,0},
{0x1C80,lexy::code_point::Ll,116,-6222},
{0x1C81,lexy::code_point::Ll,116,-6221},
{0x1C82,lexy::code_point::Ll,116,-6212},
{0x1C83,lexy::code_point::Ll,116,-6210},
{0x1C85,lexy::code_point::Ll,116,-6211},
{0x1C86,lexy::code_point::Ll,116,-6204},
{0x1C87,lexy::code_point::Ll,116,-6180},
{0x1C88,lexy::code_point::Ll,116,35267},
{0x1C89,lexy::code_point::Cn,0,0},
{0x1C90,lexy::code_point::Lu,108,-3008},
{0x1CBB,lexy::code_point::Cn,0,0},
{0x1CBD,lexy::code_point::Lu,108,-3008},
{0x1CC0,lexy::code_point::Po,0,0},
{0x1CC8,lexy::code_point::Cn,0,0},
{0x1CD0,lexy::code_point::Mn,64,0},
{0x1CD3,lexy::code_point::Po,0,0},
{0x1CD4,lexy::code_point::Mn,64,0},
{0x1CE1,lexy::code_point::Mc,64,0},
{0x1CE2,lexy::code_point::Mn,64,0},
{0x1CE9,lexy::code_point::Lo,100,0},
{0x1CED,lexy::code_point::Mn,64,0},
{0x1CEE,lexy::code_point::Lo,100,0},
{0x1CF4,lexy::code_point::Mn,64,0},
{0x1CF5,lexy::code_point::Lo,100,0},
{0x1CF7,lexy::code_point::Mc,64,0},
{0x1CF8,lexy::code_point::Mn,64,0},
{0x1CFA,lexy::code_point::Lo,100,0},
{0x1CFB,lexy::code_point::Cn,0,0},
{0x1D00,lexy::code_point::Ll,116,0},
{0x1D2C,lexy::code_point::Lm,116,0},
{0x1D6B,lexy::code_point::Ll,116,0},
{0x1D78,lexy::code_point::Lm,116,0},
{0x1D79,lexy::code_point::Ll,116,0},
{0x1D9B,lexy::code_point::Lm,116,0},
{0x1DC0,lexy::code_point::Mn,64,0},
{0x1DE7,lexy::code_point::Mn,68,0},
{0x1DF5,lexy::code_point::Mn,64,0},
{0x1E00,lexy::code_point::Lu,108,1},
{0x1E01,lexy::code_point::Ll,116,0},
{0x1E02,lexy::code_point::Lu,108,1},
{0x1E03,lexy::code_point::Ll,116,0},
{0x1E04,lexy::code_point::Lu,108,1},
{0x1E05,lexy::code_point::Ll,116,0},
{0x1E06,lexy::code_point::Lu,108,1},
{0x1E07,lexy::code_point::Ll,116,0},
{0x1E08,lexy::code_point::Lu,108,1},
{0x1E09,lexy::code_point::Ll,116,0},
{0x1E0A,lexy::code_point::Lu,108,1},
{0x1E0B,lexy::code_point::Ll,116,0},
{0x1E0C,lexy::code_point::Lu,108,1},
{0x1E0D,lexy::code_point::Ll,116,0},
{0x1E0E,lexy::code_point::Lu,108,1},
{0x1E0F,lexy::code_point::Ll,116,0},
{0x1E10,lexy::code_point::Lu,108,1},
{0x1E11,lexy::code_point::Ll,116,0},
{0x1E12,lexy::code_point::Lu,108,1},
{0x1E13,lexy::code_point::Ll,116,0},
{0x1E14,lexy::code_point::Lu,108,1},
{0x1E15,lexy::code_point::Ll,116,0},
{0x1E16,lexy::code_point::Lu,108,1},
{0x1E17,lexy::code_point::Ll,116,0},
{0x1E18,lexy::code_point::Lu,108,1},
{0x1E19,lexy::code_point::Ll,116,0},
{0x1E1A,lexy::code_point::Lu,108,1},
{0x1E1B,lexy::code_point::Ll,116,0},
{0x1E1C,lexy::code_point::Lu,108,1},
{0x1E1D,lexy::code_point::Ll,116,0},
{0x1E1E,lexy::code_point::Lu,108,1},
{0x1E1F,lexy::code_point::Ll,116,0},
{0x1E20,lexy::code_point::Lu,108,1},
{0x1E21,lexy::code_point::Ll,116,0},
{0x1E22,lexy::code_point::Lu,108,1},
{0x1E23,lexy::code_point::Ll,116,0},
{0x1E24,lexy::code_point::Lu,108,1},
{0x1E25,lexy::code_point::Ll,116,0},
{0x1E26,lexy::code_point::Lu,108,1},
{0x1E27,lexy::code_point::Ll,116,0},
{0x1E28,lexy::code_point::Lu,108,1},
{0x1E29,lexy::code_point::Ll,116,0},
{0x1E2A,lexy::code_point::Lu,108,1},
{0x1E2B,lexy::code_point::Ll,116,0},
{0x1E2C,lexy::code_point::Lu,108,1},
{0x1E2D,lexy::code_point::Ll,116,0},
{0x1E2E,lexy::code_point::Lu,108,1},
{0x1E2F,lexy::code_point::Ll,116,0},
{0x1E30,lexy::code_point::Lu,108,1},
{0x1E31,lexy::code_point::Ll,116,0},
{0x1E32,lexy::code_point::Lu,108,1},
{0x1E33,lexy::code_point::Ll,116,0},
{0x1E34,lexy::code_point::Lu,108,1},
{0x1E35,lexy::code_point::Ll,116,0},
{0x1E36,lexy::code_point::Lu,108,1},
{0x1E37,lexy::code_point::Ll,116,0},
{0x1E38,lexy::code_point::Lu,108,1},
{0x1E39,lexy::code_point::Ll,116,0},
{0x1E3A,lexy::code_point::Lu,108,1},
{0x1E3B,lexy::code_point::Ll,116,0},
{0x1E3C,lexy::code_point::Lu,108,1},
{0x1E3D,lexy::code_point::Ll,116,0},
{0x1E3E,lexy::code_point::Lu,108,1},
{0x1E3F,lexy::code_point::Ll,116,0},
{0x1E40,lexy::code_point::Lu,108,1},
{0x1E41,lexy::code_point::Ll,116,0},
{0x1E42,lexy::code_point::Lu,108,1},
{0x1E43,lexy::code_point::Ll,116,0},
{0x1E44,lexy::code_point::Lu,108,1},
{0x1E45,lexy::code_point::Ll,116,0},
{0x1E46,lexy::code_point::Lu,108,1},
{0x1E47,lexy::code_point::Ll,116,0},
{0x1E48,lexy::code_point::Lu,108,1},
{0x1E49,lexy::code_point::Ll,116,0},
{0x1E4A,lexy::code_point::Lu,108,1},
{0x1E4B,lexy::code_point::Ll,116,0},
{0x1E4C,lexy::code_point::Lu,108,1},
{0x1E4D,lexy::code_point::Ll,116,0},
{0x1E4E,lexy::code_point::Lu,108,1},
{0x1E4F,lexy::code_point::Ll,116,0},
{0x1E50,lexy::code_point::Lu,108,1},
{0x1E51,lexy::code_point::Ll,116,0},
{0x1E52,lexy::code_point::Lu,108,1},
{0x1E53,lexy::code_point::Ll,116,0},
{0x1E54,lexy::code_point::Lu,108,1},
{0x1E55,lexy::code_point::Ll,116,0},
{0x1E56,lexy::code_point::Lu,108,1},
{0x1E57,lexy::code_point::Ll,116,0},
{0x1E58,lexy::code_point::Lu,108,1},
{0x1E59,lexy::code_point::Ll,116,0},
{0x1E5A,lexy::code_point::Lu,108,1},
{0x1E5B,lexy::code_point::Ll,116,0},
{0x1E5C,lexy::code_point::Lu,108,1},
{0x1E5D,lexy::code_point::Ll,116,0},
{0x1E5E,lexy::code_point::Lu,108,1},
{0x1E5F,lexy::code_point::Ll,116,0},
{0x1E60,lexy::code_point::Lu,108,1},
{0x1E61,lexy::code_point::Ll,116,0},
{0x1E62,lexy::code_point::Lu,108,1},
{0x1E63,lexy::code_point::Ll,116,0},
{0x1E64,lexy::code_point::Lu,108,1},
{0x1E65,lexy::code_point::Ll,116,0},
{0x1E66,lexy::code_point::Lu,108,1},
{0x1E67,lexy::code_point::Ll,116,0},
{0x1E68,lexy::code_point::Lu,108,1},
{0x1E69,lexy::code_point::Ll,116,0},
{0x1E6A,lexy::code_point::Lu,108,1},
{0x1E6B,lexy::code_point::Ll,116,0},
{0x1E6C,lexy::code_point::Lu,108,1},
{0x1E6D,lexy::code_point::Ll,116,0},
{0x1E6E,lexy::code_point::Lu,108,1},
{0x1E6F,lexy::code_point::Ll,116,0},
{0x1E70,lexy::code_point::Lu,108,1},
{0x1E71,lexy::code_point::Ll,116,0},
{0x1E72,lexy::code_point::Lu,108,1},
{0x1E73,lexy::code_point::Ll,116,0},
{0x1E74,lexy::code_point::Lu,108,1},
{0x1E75,lexy::code_point::Ll,116,0},
{0x1E76,lexy::code_point::Lu,108,1},
{0x1E77,lexy::code_point::Ll,116,0},
{0x1E78,lexy::code_point::Lu,108,1},
{0x1E79,lexy::code_point::Ll,116,0},
{0x1E7A,lexy::code_point::Lu,108,1},
{0x1E7B,lexy::code_point::Ll,116,0},
{0x1E7C,lexy::code_point::Lu,108,1},
{0x1E7D,lexy::code_point::Ll,116,0},
{0x1E7E,lexy::code_point::Lu,108,1},
{0x1E7F,lexy::code_point::Ll,116,0},
{0x1E80,lexy::code_point::Lu,108,1},
{0x1E81,lexy::code_point::Ll,116,0},
{0x1E82,lexy::code_point::Lu,108,1},
{0x1E83,lexy::code_point::Ll,116,0},
{0x1E84,lexy::code_point::Lu,108,1},
{0x1E85,lexy::code_point::Ll,116,0},
{0x1E86,lexy::code_point::Lu,108,1},
{0x1E87,lexy::code_point::Ll,116,0},
{0x1E88,lexy::code_point::Lu,108,1},
{0x1E89,lexy::code_point::Ll,116,0},
{0x1E8A,lexy::code_point::Lu,108,1},
{0x1E8B,lexy::code_point::Ll,116,0},
{0x1E8C,lexy::code_point::Lu,108,1},
{0x1E8D,lexy::code_point::Ll,116,0},
{0x1E8E,lexy::code_point::Lu,108,1},
{0x1E8F,lexy::code_point::Ll,116,0},
{0x1E90,lexy::code_point::Lu,108,1},
{0x1E91,lexy::code_point::Ll,116,0},
{0x1E92,lexy::code_point::Lu,108,1},
{0x1E93,lexy::code_point::Ll,116,0},
{0x1E94,lexy::code_point::Lu,108,1},
{0x1E95,lexy::code_point::Ll,116,0},
{0x1E9B,lexy::code_point::Ll,116,-58},
{0x1E9C,lexy::code_point::Ll,116,0},
{0x1E9E,lexy::code_point::Lu,108,-7615},
{0x1E9F,lexy::code_point::Ll,116,0},
{0x1EA0,lexy::code_point::Lu,108,1},
{0x1EA1,lexy::code_point::Ll,116,0},
{0x1EA2,lexy::code_point::Lu,108,1},
{0x1EA3,lexy::code_point::Ll,116,0},
{0x1EA4,lexy::code_point::Lu,108,1},
{0x1EA5,lexy::code_point::Ll,116,0},
{0x1EA6,lexy::code_point::Lu,108,1},
{0x1EA7,lexy::code_point::Ll,116,0},
{0x1EA8,lexy::code_point::Lu,108,1},
{0x1EA9,lexy::code_point::Ll,116,0},
{0x1EAA,lexy::code_point::Lu,108,1},
{0x1EAB,lexy::code_point::Ll,116,0},
{0x1EAC,lexy::code_point::Lu,108,1},
{0x1EAD,lexy::code_point::Ll,116,0},
{0x1EAE,lexy::code_point::Lu,108,1},
{0x1EAF,lexy::code_point::Ll,116,0},
{0x1EB0,lexy::code_point::Lu,108,1},
{0x1EB1,lexy::code_point::Ll,116,0},
{0x1EB2,lexy::code_point::Lu,108,1},
{0x1EB3,lexy::code_point::Ll,116,0},
{0x1EB4,lexy::code_point::Lu,108,1},
{0x1EB5,lexy::code_point::Ll,116,0},
{0x1EB6,lexy::code_point::Lu,108,1},
{0x1EB7,lexy::code_point::Ll,116,0},
{0x1EB8,lexy::code_point::Lu,108,1},
{0x1EB9,lexy::code_point::Ll,116,0},
{0x1EBA,lexy::code_point::Lu,108,1},
{0x1EBB,lexy::code_point::Ll,116,0},
{0x1EBC,lexy::code_point::Lu,108,1},
{0x1EBD,lexy::code_point::Ll,116,0},
{0x1EBE,lexy::code_point::Lu,108,1},
{0x1EBF,lexy::code_point::Ll,116,0},
{0x1EC0,lexy::code_point::Lu,108,1},
{0x1EC1,lexy::code_point::Ll,116,0},
{0x1EC2,lexy::code_point::Lu,108,1},
{0x1EC3,lexy::code_point::Ll,116,0},
{0x1EC4,lexy::code_point::Lu,108,1},
{0x1EC5,lexy::code_point::Ll,116,0},
{0x1EC6,lexy::code_point::Lu,108,1},
{0x1EC7,lexy::code_point::Ll,116,0},
{0x1EC8,lexy::code_point::Lu,108,1},
{0x1EC9,lexy::code_point::Ll,116,0},
{0x1ECA,lexy::code_point::Lu,108,1},
{0x1ECB,lexy::code_point::Ll,116,0},
{0x1ECC,lexy::code_point::Lu,108,1},
{0x1ECD,lexy::code_point::Ll,116,0},
{0x1ECE,lexy::code_point::Lu,108,1},
{0x1ECF,lexy::code_point::Ll,116,0},
{0x1ED0,lexy::code_point::Lu,108,1},
{0x1ED1,lexy::code_point::Ll,116,0},
{0x1ED2,lexy::code_point::Lu,108,1},
{0x1ED3,lexy::code_point::Ll,116,0},
{0x1ED4,lexy::code_point::Lu,108,1},
{0x1ED5,lexy::code_point::Ll,116,0},
{0x1ED6,lexy::code_point::Lu,108,1},
{0x1ED7,lexy::code_point::Ll,116,0},
{0x1ED8,lexy::code_point::Lu,108,1},
{0x1ED9,lexy::code_point::Ll,116,0},
{0x1EDA,lexy::code_point::Lu,108,1},
{0x1EDB,lexy::code_point::Ll,116,0},
{0x1EDC,lexy::code_point::Lu,108,1},
{0x1EDD,lexy::code_point::Ll,116,0},
{0x1EDE,lexy::code_point::Lu,108,1},
{0x1EDF,lexy::code_point::Ll,116,0},
{0x1EE0,lexy::code_point::Lu,108,1},
{0x1EE1,lexy::code_point::Ll,116,0},
{0x1EE2,lexy::code_point::Lu,108,1},
{0x1EE3,lexy::code_point::Ll,116,0},
{0x1EE4,lexy::code_point::Lu,108,1},
{0x1EE5,lexy::code_point::Ll,116,0},
{0x1EE6,lexy::code_point::Lu,108,1},
{0x1EE7,lexy::code_point::Ll,116,0},
{0x1EE8,lexy::code_point::Lu,108,1},
{0x1EE9,lexy::code_point::Ll,116,0},
{0x1EEA,lexy::code_point::Lu,108,1},
{0x1EEB,lexy::code_point::Ll,116,0},
{0x1EEC,lexy::code_point::Lu,108,1},
{0x1EED,lexy::code_point::Ll,116,0},
{0x1EEE,lexy::code_point::Lu,108,1},
{0x1EEF,lexy::code_point::Ll,116,0},
{0x1EF0,lexy::code_point::Lu,108,1},
{0x1EF1,lexy::code_point::Ll,116,0},
{0x1EF2,lexy::code_point::Lu,108,1},
{0x1EF3,lexy::code_point::Ll,116,0},
{0x1EF4,lexy::code_point::Lu,108,1},
{0x1EF5,lexy::code_point::Ll,116,0},
{0x1EF6,lexy::code_point::Lu,108,1},
{0x1EF7,lexy::code_point::Ll,116,0},
{0x1EF8,lexy::code_point::Lu,108,1},
{0x1EF9,lexy::code_point::Ll,116,0},
{0x1EFA,lexy::code_point::Lu,108,1},
{0x1EFB,lexy::code_point::Ll,116,0},
{0x1EFC,lexy::code_point::Lu,108,1},
{0x1EFD,lexy::code_point::Ll,116,0},
{0x1EFE,lexy::code_point::Lu,108,1},
{0x1EFF,lexy::code_point::Ll,116,0},
{0x1F08,lexy::code_point::Lu,108,-8},
{0x1F10,lexy::code_point::Ll,116,0},
{0x1F16,lexy::code_point::Cn,0,0},
{0x1F18,lexy::code_point::Lu,108,-8},
{0x1F1E,lexy::code_point::Cn,0,0},
{0x1F20,lexy::code_point::Ll,116,0},
{0x1F28,lexy::code_point::Lu,108,-8},
{0x1F30,lexy::code_point::Ll,116,0},
{0x1F38,lexy::code_point::Lu,108,-8},
{0x1F40,lexy::code_point::Ll,116,0},
{0x1F46,lexy::code_point::Cn,0,0},
{0x1F48,lexy::code_point::Lu,108,-8},
{0x1F4E,lexy::code_point::Cn,0,0},
{0x1F50,lexy::code_point::Ll,116,0},
{0x1F58,lexy::code_point::Cn,0,0},
{0x1F59,lexy::code_point::Lu,108,-8},
{0x1F5A,lexy::code_point::Cn,0,0},
{0x1F5B,lexy::code_point::Lu,108,-8},
{0x1F5C,lexy::code_point::Cn,0,0},
{0x1F5D,lexy::code_point::Lu,108,-8},
{0x1F5E,lexy::code_point::Cn,0,0},
{0x1F5F,lexy::code_point::Lu,108,-8},
{0x1F60,lexy::code_point::Ll,116,0},
{0x1F68,lexy::code_point::Lu,108,-8},
{0x1F70,lexy::code_point::Ll,116,0},
{0x1F7E,lexy::code_point::Cn,0,0},
{0x1F80,lexy::code_point::Ll,116,0},
{0x1F88,lexy::code_point::Lt,100,-8},
{0x1F90,lexy::code_point::Ll,116,0},
{0x1F98,lexy::code_point::Lt,100,-8},
{0x1FA0,lexy::code_point::Ll,116,0},
{0x1FA8,lexy::code_point::Lt,100,-8},
{0x1FB0,lexy::code_point::Ll,116,0},
{0x1FB5,lexy::code_point::Cn,0,0},
{0x1FB6,lexy::code_point::Ll,116,0},
{0x1FB8,lexy::code_point::Lu,108,-8},
{0x1FBA,lexy::code_point::Lu,108,-74},
{0x1FBC,lexy::code_point::Lt,100,-9},
{0x1FBD,lexy::code_point::Sk,0,0},
{0x1FBE,lexy::code_point::Ll,116,-7173},
{0x1FBF,lexy::code_point::Sk,0,0},
{0x1FC2,lexy::code_point::Ll,116,0},
{0x1FC5,lexy::code_point::Cn,0,0},
{0x1FC6,lexy::code_point::Ll,116,0},
{0x1FC8,lexy::code_point::Lu,108,-86},
{0x1FCC,lexy::code_point::Lt,100,-9},
{0x1FCD,lexy::code_point::Sk,0,0},
{0x1FD0,lexy::code_point::Ll,116,0},
{0x1FD4,lexy::code_point::Cn,0,0},
{0x1FD6,lexy::code_point::Ll,116,0},
{0x1FD8,lexy::code_point::Lu,108,-8},
{0x1FDA,lexy::code_point::Lu,108,-100},
{0x1FDC,lexy::code_point::Cn,0,0},
{0x1FDD,lexy::code_point::Sk,0,0},
{0x1FE0,lexy::code_point::Ll,116,0},
{0x1FE8,lexy::code_point::Lu,108,-8},
{0x1FEA,lexy::code_point::Lu,108,-112},
{0x1FEC,lexy::code_point::Lu,108,-7},
{0x1FED,lexy::code_point::Sk,0,0},
{0x1FF0,lexy::code_point::Cn,0,0},
{0x1FF2,lexy::code_point::Ll,116,0},
{0x1FF5,lexy::code_point::Cn,0,0},
{0x1FF6,lexy::code_point::Ll,116,0},
{0x1FF8,lexy::code_point::Lu,108,-128},
{0x1FFA,lexy::code_point::Lu,108,-126},
{0x1FFC,lexy::code_point::Lt,100,-9},
{0x1FFD,lexy::code_point::Sk,0,0},
{0x1FFF,lexy::code_point::Cn,0,0},
{0x2000,lexy::code_point::Zs,1,0},
{0x200B,lexy::code_point::Cf,0,0},
{0x200C,lexy::code_point::Cf,2,0},
{0x200E,lexy::code_point::Cf,0,0},
{0x2010,lexy::code_point::Pd,0,0},
{0x2016,lexy::code_point::Po,0,0},
{0x2018,lexy::code_point::Pi,0,0},
{0x2019,lexy::code_point::Pf,0,0},
{0x201A,lexy::code_point::Ps,0,0},
{0x201B,lexy::code_point::Pi,0,0},
{0x201D,lexy::code_point::Pf,0,0},
{0x201E,lexy::code_point::Ps,0,0},
{0x201F,lexy::code_point::Pi,0,0},
{0x2020,lexy::code_point::Po,0,0},
{0x2028,lexy::code_point::Zl,1,0},
{0x2029,lexy::code_point::Zp,1,0},
{0x202A,lexy::code_point::Cf,0,0},
{0x202F,lexy::code_point::Zs,1,0},
{0x2030,lexy::code_point::Po,0,0},
{0x2039,lexy::code_point::Pi,0,0},
{0x203A,lexy::code_point::Pf,0,0},
{0x203B,lexy::code_point::Po,0,0},
{0x203F,lexy::code_point::Pc,64,0},
{0x2041,lexy::code_point::Po,0,0},
{0x2044,lexy::code_point::Sm,0,0},
{0x2045,lexy::code_point::Ps,0,0},
{0x2046,lexy::code_point::Pe,0,0},
{0x2047,lexy::code_point::Po,0,0},
{0x2052,lexy::code_point::Sm,0,0},
{0x2053,lexy::code_point::Po,0,0},
{0x2054,lexy::code_point::Pc,64,0},
{0x2055,lexy::code_point::Po,0,0},
{0x205F,lexy::code_point::Zs,1,0},
{0x2060,lexy::code_point::Cf,0,0},
{0x2065,lexy::code_point::Cn,0,0},
{0x2066,lexy::code_point::Cf,0,0},
{0x2070,lexy::code_point::No,0,0},
{0x2071,lexy::code_point::Lm,116,0},
{0x2072,lexy::code_point::Cn,0,0},
{0x2074,lexy::code_point::No,0,0},
{0x207A,lexy::code_point::Sm,0,0},
{0x207D,lexy::code_point::Ps,0,0},
{0x207E,lexy::code_point::Pe,0,0},
{0x207F,lexy::code_point::Lm,116,0},
{0x2080,lexy::code_point::No,0,0},
{0x208A,lexy::code_point::Sm,0,0},
{0x208D,lexy::code_point::Ps,0,0},
{0x208E,lexy::code_point::Pe,0,0},
{0x208F,lexy::code_point::Cn,0,0},
{0x2090,lexy::code_point::Lm,116,0},
{0x209D,lexy::code_point::Cn,0,0},
{0x20A0,lexy::code_point::Sc,0,0},
{0x20C1,lexy::code_point::Cn,0,0},
{0x20D0,lexy::code_point::Mn,64,0},
{0x20DD,lexy::code_point::Me,0,0},
{0x20E1,lexy::code_point::Mn,64,0},
{0x20E2,lexy::code_point::Me,0,0},
{0x20E5,lexy::code_point::Mn,64,0},
{0x20F1,lexy::code_point::Cn,0,0},
{0x2100,lexy::code_point::So,0,0},
{0x2102,lexy::code_point::Lu,108,0},
{0x2103,lexy::code_point::So,0,0},
{0x2107,lexy::code_point::Lu,108,0},
{0x2108,lexy::code_point::So,0,0},
{0x210A,lexy::code_point::Ll,116,0},
{0x210B,lexy::code_point::Lu,108,0},
{0x210E,lexy::code_point::Ll,116,0},
{0x2110,lexy::code_point::Lu,108,0},
{0x2113,lexy::code_point::Ll,116,0},
{0x2114,lexy::code_point::So,0,0},
{0x2115,lexy::code_point::Lu,108,0},
{0x2116,lexy::code_point::So,0,0},
{0x2118,lexy::code_point::Sm,96,0},
{0x2119,lexy::code_point::Lu,108,0},
{0x211E,lexy::code_point::So,0,0},
{0x2124,lexy::code_point::Lu,108,0},
{0x2125,lexy::code_point::So,0,0},
{0x2126,lexy::code_point::Lu,108,-7517},
{0x2127,lexy::code_point::So,0,0},
{0x2128,lexy::code_point::Lu,108,0},
{0x2129,lexy::code_point::So,0,0},
{0x212A,lexy::code_point::Lu,108,-8383},
{0x212B,lexy::code_point::Lu,108,-8262},
{0x212C,lexy::code_point::Lu,108,0},
{0x212E,lexy::code_point::So,96,0},
{0x212F,lexy::code_point::Ll,116,0},
{0x2130,lexy::code_point::Lu,108,0},
{0x2132,lexy::code_point::Lu,108,28},
{0x2133,lexy::code_point::Lu,108,0},
{0x2134,lexy::code_point::Ll,116,0},
{0x2135,lexy::code_point::Lo,100,0},
{0x2139,lexy::code_point::Ll,116,0},
{0x213A,lexy::code_point::So,0,0},
{0x213C,lexy::code_point::Ll,116,0},
{0x213E,lexy::code_point::Lu,108,0},
{0x2140,lexy::code_point::Sm,0,0},
{0x2145,lexy::code_point::Lu,108,0},
{0x2146,lexy::code_point::Ll,116,0},
{0x214A,lexy::code_point::So,0,0},
{0x214B,lexy::code_point::Sm,0,0},
{0x214C,lexy::code_point::So,0,0},
{0x214E,lexy::code_point::Ll,116,0},
{0x214F,lexy::code_point::So,0,0},
{0x2150,lexy::code_point::No,0,0},
{0x2160,lexy::code_point::Nl,108,16},
{0x2170,lexy::code_point::Nl,116,0},
{0x2180,lexy::code_point::Nl,100,0},
{0x2183,lexy::code_point::Lu,108,1},
{0x2184,lexy::code_point::Ll,116,0},
{0x2185,lexy::code_point::Nl,100,0},
{0x2189,lexy::code_point::No,0,0},
{0x218A,lexy::code_point::So,0,0},
{0x218C,lexy::code_point::Cn,0,0},
{0x2190,lexy::code_point::Sm,0,0},
{0x2195,lexy::code_point::So,0,0},
{0x219A,lexy::code_point::Sm,0,0},
{0x219C,lexy::code_point::So,0,0},
{0x21A0,lexy::code_point::Sm,0,0},
{0x21A1,lexy::code_point::So,0,0},
{0x21A3,lexy::code_point::Sm,0,0},
{0x21A4,lexy::code_point::So,0,0},
{0x21A6,lexy::code_point::Sm,0,0},
{0x21A7,lexy::code_point::So,0,0},
{0x21AE,lexy::code_point::Sm,0,0},
{0x21AF,lexy::code_point::So,0,0},
{0x21CE,lexy::code_point::Sm,0,0},
{0x21D0,lexy::code_point::So,0,0},
{0x21D2,lexy::code_point::Sm,0,0},
{0x21D3,lexy::code_point::So,0,0},
{0x21D4,lexy::code_point::Sm,0,0},
{0x21D5,lexy::code_point::So,0,0},
{0x21F4,lexy::code_point::Sm,0,0},
{0x2300,lexy::code_point::So,0,0},
{0x2308,lexy::code_point::Ps,0,0},
{0x2309,lexy::code_point::Pe,0,0},
{0x230A,lexy::code_point::Ps,0,0},
{0x230B,lexy::code_point::Pe,0,0},
{0x230C,lexy::code_point::So,0,0},
{0x2320,lexy::code_point::Sm,0,0},
{0x2322,lexy::code_point::So,0,0},
{0x2329,lexy::code_point::Ps,0,0},
{0x232A,lexy::code_point::Pe,0,0},
{0x232B,lexy::code_point::So,0,0},
{0x237C,lexy::code_point::Sm,0,0},
{0x237D,lexy::code_point::So,0,0},
{0x239B,lexy::code_point::Sm,0,0},
{0x23B4,lexy::code_point::So,0,0},
{0x23DC,lexy::code_point::Sm,0,0},
{0x23E2,lexy::code_point::So,0,0},
{0x2427,lexy::code_point::Cn,0,0},
{0x2440,lexy::code_point::So,0,0},
{0x244B,lexy::code_point::Cn,0,0},
{0x2460,lexy::code_point::No,0,0},
{0x249C,lexy::code_point::So,0,0},
{0x24B6,lexy::code_point::So,12,26},
{0x24D0,lexy::code_point::So,20,0},
{0x24EA,lexy::code_point::No,0,0},
{0x2500,lexy::code_point::So,0,0},
{0x25B7,lexy::code_point::Sm,0,0},
{0x25B8,lexy::code_point::So,0,0},
{0x25C1,lexy::code_point::Sm,0,0},
{0x25C2,lexy::code_point::So,0,0},
{0x25F8,lexy::code_point::Sm,0,0},
{0x2600,lexy::code_point::So,0,0},
{0x266F,lexy::code_point::Sm,0,0},
{0x2670,lexy::code_point::So,0,0},
{0x2768,lexy::code_point::Ps,0,0},
{0x2769,lexy::code_point::Pe,0,0},
{0x276A,lexy::code_point::Ps,0,0},
{0x276B,lexy::code_point::Pe,0,0},
{0x276C,lexy::code_point::Ps,0,0},
{0x276D,lexy::code_point::Pe,0,0},
{0x276E,lexy::code_point::Ps,0,0},
{0x276F,lexy::code_point::Pe,0,0},
{0x2770,lexy::code_point::Ps,0,0},
{0x2771,lexy::code_point::Pe,0,0},
{0x2772,lexy::code_point::Ps,0,0},
{0x2773,lexy::code_point::Pe,0,0},
{0x2774,lexy::code_point::Ps,0,0},
{0x2775,lexy::code_point::Pe,0,0},
{0x2776,lexy::code_point::No,0,0},
{0x2794,lexy::code_point::So,0,0},
{0x27C0,lexy::code_point::Sm,0,0},
{0x27C5,lexy::code_point::Ps,0,0},
{0x27C6,lexy::code_point::Pe,0,0},
{0x27C7,lexy::code_point::Sm,0,0},
{0x27E6,lexy::code_point::Ps,0,0},
{0x27E7,lexy::code_point::Pe,0,0},
{0x27E8,lexy::code_point::Ps,0,0},
{0x27E9,lexy::code_point::Pe,0,0},
{0x27EA,lexy::code_point::Ps,0,0},
{0x27EB,lexy::code_point::Pe,0,0},
{0x27EC,lexy::code_point::Ps,0,0},
{0x27ED,lexy::code_point::Pe,0,0},
{0x27EE,lexy::code_point::Ps,0,0},
{0x27EF,lexy::code_point::Pe,0,0},
{0x27F0,lexy::code_point::Sm,0,0},
{0x2800,lexy::code_point::So,0,0},
{0x2900,lexy::code_point::Sm,0,0},
{0x2983,lexy::code_point::Ps,0,0},
{0x2984,lexy::code_point::Pe,0,0},
{0x2985,lexy::code_point::Ps,0,0},
{0x2986,lexy::code_point::Pe,0,0},
{0x2987,lexy::code_point::Ps,0,0},
{0x2988,lexy::code_point::Pe,0,0},
{0x2989,lexy::code_point::Ps,0,0},
{0x298A,lexy::code_point::Pe,0,0},
{0x298B,lexy::code_point::Ps,0,0},
{0x298C,lexy::code_point::Pe,0,0},
{0x298D,lexy::code_point::Ps,0,0},
{0x298E,lexy::code_point::Pe,0,0},
{0x298F,lexy::code_point::Ps,0,0},
{0x2990,lexy::code_point::Pe,0,0},
{0x2991,lexy::code_point::Ps,0,0},
{0x2992,lexy::code_point::Pe,0,0},
{0x2993,lexy::code_point::Ps,0,0},
{0x2994,lexy::code_point::Pe,0,0},
{0x2995,lexy::code_point::Ps,0,0},
{0x2996,lexy::code_point::Pe,0,0},
{0x2997,lexy::code_point::Ps,0,0},
{0x2998,lexy::code_point::Pe,0,0},
{0x2999,lexy::code_point::Sm,0,0},
{0x29D8,lexy::code_point::Ps,0,0},
{0x29D9,lexy::code_point::Pe,0,0},
{0x29DA,lexy::code_point::Ps,0,0},
{0x29DB,lexy::code_point::Pe,0,0},
{0x29DC,lexy::code_point::Sm,0,0},
{0x29FC,lexy::code_point::Ps,0,0},
{0x29FD,lexy::code_point::Pe,0,0},
{0x29FE,lexy::code_point::Sm,0,0},
{0x2B00,lexy::code_point::So,0,0},
{0x2B30,lexy::code_point::Sm,0,0},
{0x2B45,lexy::code_point::So,0,0},
{0x2B47,lexy::code_point::Sm,0,0},
{0x2B4D,lexy::code_point::So,0,0},
{0x2B74,lexy::code_point::Cn,0,0},
{0x2B76,lexy::code_point::So,0,0},
{0x2B96,lexy::code_point::Cn,0,0},
{0x2B97,lexy::code_point::So,0,0},
{0x2C00,lexy::code_point::Lu,108,48},
{0x2C30,lexy::code_point::Ll,116,0},
{0x2C60,lexy::code_point::Lu,108,1},
{0x2C61,lexy::code_point::Ll,116,0},
{0x2C62,lexy::code_point::Lu,108,-10743},
{0x2C63,lexy::code_point::Lu,108,-3814},
{0x2C64,lexy::code_point::Lu,108,-10727},
{0x2C65,lexy::code_point::Ll,116,0},
{0x2C67,lexy::code_point::Lu,108,1},
{0x2C68,lexy::code_point::Ll,116,0},
{0x2C69,lexy::code_point::Lu,108,1},
{0x2C6A,lexy::code_point::Ll,116,0},
{0x2C6B,lexy::code_point::Lu,108,1},
{0x2C6C,lexy::code_point::Ll,116,0},
{0x2C6D,lexy::code_point::Lu,108,-10780},
{0x2C6E,lexy::code_point::Lu,108,-10749},
{0x2C6F,lexy::code_point::Lu,108,-10783},
{0x2C70,lexy::code_point::Lu,108,-10782},
{0x2C71,lexy::code_point::Ll,116,0},
{0x2C72,lexy::code_point::Lu,108,1},
{0x2C73,lexy::code_point::Ll,116,0},
{0x2C75,lexy::code_point::Lu,108,1},
{0x2C76,lexy::code_point::Ll,116,0},
{0x2C7C,lexy::code_point::Lm,116,0},
{0x2C7E,lexy::code_point::Lu,108,-10815},
{0x2C80,lexy::code_point::Lu,108,1},
{0x2C81,lexy::code_point::Ll,116,0},
{0x2C82,lexy::code_point::Lu,108,1},
{0x2C83,lexy::code_point::Ll,116,0},
{0x2C84,lexy::code_point::Lu,108,1},
{0x2C85,lexy::code_point::Ll,116,0},
{0x2C86,lexy::code_point::Lu,108,1},
{0x2C87,lexy::code_point::Ll,116,0},
{0x2C88,lexy::code_point::Lu,108,1},
{0x2C89,lexy::code_point::Ll,116,0},
{0x2C8A,lexy::code_point::Lu,108,1},
{0x2C8B,lexy::code_point::Ll,116,0},
{0x2C8C,lexy::code_point::Lu,108,1},
{0x2C8D,lexy::code_point::Ll,116,0},
{0x2C8E,lexy::code_point::Lu,108,1},
{0x2C8F,lexy::code_point::Ll,116,0},
{0x2C90,lexy::code_point::Lu,108,1},
{0x2C91,lexy::code_point::Ll,116,0},
{0x2C92,lexy::code_point::Lu,108,1},
{0x2C93,lexy::code_point::Ll,116,0},
{0x2C94,lexy::code_point::Lu,108,1},
{0x2C95,lexy::code_point::Ll,116,0},
{0x2C96,lexy::code_point::Lu,108,1},
{0x2C97,lexy::code_point::Ll,116,0},
{0x2C98,lexy::code_point::Lu,108,1},
{0x2C99,lexy::code_point::Ll,116,0},
{0x2C9A,lexy::code_point::Lu,108,1},
{0x2C9B,lexy::code_point::Ll,116,0},
{0x2C9C,lexy::code_point::Lu,108,1},
{0x2C9D,lexy::code_point::Ll,116,0},
{0x2C9E,lexy::code_point::Lu,108,1},
{0x2C9F,lexy::code_point::Ll,116,0},
{0x2CA0,lexy::code_point::Lu,108,1},
{0x2CA1,lexy::code_point::Ll,116,0},
{0x2CA2,lexy::code_point::Lu,108,1},
{0x2CA3,lexy::code_point::Ll,116,0},
{0x2CA4,lexy::code_point::Lu,108,1},
{0x2CA5,lexy::code_point::Ll,116,0},
{0x2CA6,lexy::code_point::Lu,108,1},
{0x2CA7,lexy::code_point::Ll,116,0},
{0x2CA8,lexy::code_point::Lu,108,1},
{0x2CA9,lexy::code_point::Ll,116,0},
{0x2CAA,lexy::code_point::Lu,108,1},
{0x2CAB,lexy::code_point::Ll,116,0},
{0x2CAC,lexy::code_point::Lu,108,1},
{0x2CAD,lexy::code_point::Ll,116,0},
{0x2CAE,lexy::code_point::Lu,108,1},
{0x2CAF,lexy::code_point::Ll,116,0},
{0x2CB0,lexy::code_point::Lu,108,1},
{0x2CB1,lexy::code_point::Ll,116,0},
{0x2CB2,lexy::code_point::Lu,108,1},
{0x2CB3,lexy::code_point::Ll,116,0},
{0x2CB4,lexy::code_point::Lu,108,1},
{0x2CB5,lexy::code_point::Ll,116,0},
{0x2CB6,lexy::code_point::Lu,108,1},
{0x2CB7,lexy::code_point::Ll,116,0},
{0x2CB8,lexy::code_point::Lu,108,1},
{0x2CB9,lexy::code_point::Ll,116,0},
{0x2CBA,lexy::code_point::Lu,108,1},
{0x2CBB,lexy::code_point::Ll,116,0},
{0x2CBC,lexy::code_point::Lu,108,1},
{0x2CBD,lexy::code_point::Ll,116,0},
{0x2CBE,lexy::code_point::Lu,108,1},
{0x2CBF,lexy::code_point::Ll,116,0},
{0x2CC0,lexy::code_point::Lu,108,1},
{0x2CC1,lexy::code_point::Ll,116,0},
{0x2CC2,lexy::code_point::Lu,108,1},
{0x2CC3,lexy::code_point::Ll,116,0},
{0x2CC4,lexy::code_point::Lu,108,1},
{0x2CC5,lexy::code_point::Ll,116,0},
{0x2CC6,lexy::code_point::Lu,108,1},
{0x2CC7,lexy::code_point::Ll,116,0},
{0x2CC8,lexy::code_point::Lu,108,1},
{0x2CC9,lexy::code_point::Ll,116,0},
{0x2CCA,lexy::code_point::Lu,108,1},
{0x2CCB,lexy::code_point::Ll,116,0},
{0x2CCC,lexy::code_point::Lu,108,1},
{0x2CCD,lexy::code_point::Ll,116,0},
{0x2CCE,lexy::code_point::Lu,108,1},
{0x2CCF,lexy::code_point::Ll,116,0},
{0x2CD0,lexy::code_point::Lu,108,1},
{0x2CD1,lexy::code_point::Ll,116,0},
{0x2CD2,lexy::code_point::Lu,108,1},
{0x2CD3,lexy::code_point::Ll,116,0},
{0x2CD4,lexy::code_point::Lu,108,1},
{0x2CD5,lexy::code_point::Ll,116,0},
{0x2CD6,lexy::code_point::Lu,108,1},
{0x2CD7,lexy::code_point::Ll,116,0},
{0x2CD8,lexy::code_point::Lu,108,1},
{0x2CD9,lexy::code_point::Ll,116,0},
{0x2CDA,lexy::code_point::Lu,108,1},
{0x2CDB,lexy::code_point::Ll,116,0},
{0x2CDC,lexy::code_point::Lu,108,1},
{0x2CDD,lexy::code_point::Ll,116,0},
{0x2CDE,lexy::code_point::Lu,108,1},
{0x2CDF,lexy::code_point::Ll,116,0},
{0x2CE0,lexy::code_point::Lu,108,1},
{0x2CE1,lexy::code_point::Ll,116,0},
{0x2CE2,lexy::code_point::Lu,108,1},
{0x2CE3,lexy::code_point::Ll,116,0},
{0x2CE5,lexy::code_point::So,0,0},
{0x2CEB,lexy::code_point::Lu,108,1},
{0x2CEC,lexy::code_point::Ll,116,0},
{0x2CED,lexy::code_point::Lu,108,1},
{0x2CEE,lexy::code_point::Ll,116,0},
{0x2CEF,lexy::code_point::Mn,64,0},
{0x2CF2,lexy::code_point::Lu,108,1},
{0x2CF3,lexy::code_point::Ll,116,0},
{0x2CF4,lexy::code_point::Cn,0,0},
{0x2CF9,lexy::code_point::Po,0,0},
{0x2CFD,lexy::code_point::No,0,0},
{0x2CFE,lexy::code_point::Po,0,0},
{0x2D00,lexy::code_point::Ll,116,0},
{0x2D26,lexy::code_point::Cn,0,0},
{0x2D27,lexy::code_point::Ll,116,0},
{0x2D28,lexy::code_point::Cn,0,0},
{0x2D2D,lexy::code_point::Ll,116,0},
{0x2D2E,lexy::code_point::Cn,0,0},
{0x2D30,lexy::code_point::Lo,100,0},
{0x2D68,lexy::code_point::Cn,0,0},
{0x2D6F,lexy::code_point::Lm,100,0},
{0x2D70,lexy::code_point::Po,0,0},
{0x2D71,lexy::code_point::Cn,0,0},
{0x2D7F,lexy::code_point::Mn,64,0},
{0x2D80,lexy::code_point::Lo,100,0},
{0x2D97,lexy::code_point::Cn,0,0},
{0x2DA0,lexy::code_point::Lo,100,0},
{0x2DA7,lexy::code_point::Cn,0,0},
{0x2DA8,lexy::code_point::Lo,100,0},
{0x2DAF,lexy::code_point::Cn,0,0},
{0x2DB0,lexy::code_point::Lo,100,0},
{0x2DB7,lexy::code_point::Cn,0,0},
{0x2DB8,lexy::code_point::Lo,100,0},
{0x2DBF,lexy::code_point::Cn,0,0},
{0x2DC0,lexy::code_point::Lo,100,0},
{0x2DC7,lexy::code_point::Cn,0,0},
{0x2DC8,lexy::code_point::Lo,100,0},
{0x2DCF,lexy::code_point::Cn,0,0},
{0x2DD0,lexy::code_point::Lo,100,0},
{0x2DD7,lexy::code_point::Cn,0,0},
{0x2DD8,lexy::code_point::Lo,100,0},
{0x2DDF,lexy::code_point::Cn,0,0},
{0x2DE0,lexy::code_point::Mn,68,0},
{0x2E00,lexy::code_point::Po,0,0},
{0x2E02,lexy::code_point::Pi,0,0},
{0x2E03,lexy::code_point::Pf,0,0},
{0x2E04,lexy::code_point::Pi,0,0},
{0x2E05,lexy::code_point::Pf,0,0},
{0x2E06,lexy::code_point::Po,0,0},
{0x2E09,lexy::code_point::Pi,0,0},
{0x2E0A,lexy::code_point::Pf,0,0},
{0x2E0B,lexy::code_point::Po,0,0},
{0x2E0C,lexy::code_point::Pi,0,0},
{0x2E0D,lexy::code_point::Pf,0,0},
{0x2E0E,lexy::code_point::Po,0,0},
{0x2E17,lexy::code_point::Pd,0,0},
{0x2E18,lexy::code_point::Po,0,0},
{0x2E1A,lexy::code_point::Pd,0,0},
{0x2E1B,lexy::code_point::Po,0,0},
{0x2E1C,lexy::code_point::Pi,0,0},
{0x2E1D,lexy::code_point::Pf,0,0},
{0x2E1E,lexy::code_point::Po,0,0},
{0x2E20,lexy::code_point::Pi,0,0},
{0x2E21,lexy::code_point::Pf,0,0},
{0x2E22,lexy::code_point::Ps,0,0},
{0x2E23,lexy::code_point::Pe,0,0},
{0x2E24,lexy::code_point::Ps,0,0},
{0x2E25,lexy::code_point::Pe,0,0},
{0x2E26,lexy::code_point::Ps,0,0},
{0x2E27,lexy::code_point::Pe,0,0},
{0x2E28,lexy::code_point::Ps,0,0},
{0x2E29,lexy::code_point::Pe,0,0},
{0x2E2A,lexy::code_point::Po,0,0},
{0x2E2F,lexy::code_point::Lm,4,0},
{0x2E30,lexy::code_point::Po,0,0},
{0x2E3A,lexy::code_point::Pd,0,0},
{0x2E3C,lexy::code_point::Po,0,0},
{0x2E40,lexy::code_point::Pd,0,0},
{0x2E41,lexy::code_point::Po,0,0},
{0x2E42,lexy::code_point::Ps,0,0},
{0x2E43,lexy::code_point::Po,0,0},
{0x2E50,lexy::code_point::So,0,0},
{0x2E52,lexy::code_point::Po,0,0},
{0x2E55,lexy::code_point::Ps,0,0},
{0x2E56,lexy::code_point::Pe,0,0},
{0x2E57,lexy::code_point::Ps,0,0},
{0x2E58,lexy::code_point::Pe,0,0},
{0x2E59,lexy::code_point::Ps,0,0},
{0x2E5A,lexy::code_point::Pe,0,0},
{0x2E5B,lexy::code_point::Ps,0,0},
{0x2E5C,lexy::code_point::Pe,0,0},
{0x2E5D,lexy::code_point::Pd,0,0},
{0x2E5E,lexy::code_point::Cn,0,0},
{0x2E80,lexy::code_point::So,0,0},
{0x2E9A,lexy::code_point::Cn,0,0},
{0x2E9B,lexy::code_point::So,0,0},
{0x2EF4,lexy::code_point::Cn,0,0},
{0x2F00,lexy::code_point::So,0,0},
{0x2FD6,lexy::code_point::Cn,0,0},
{0x2FF0,lexy::code_point::So,0,0},
{0x2FFC,lexy::code_point::Cn,0,0},
{0x3000,lexy::code_point::Zs,1,0},
{0x3001,lexy::code_point::Po,0,0},
{0x3004,lexy::code_point::So,0,0},
{0x3005,lexy::code_point::Lm,100,0},
{0x3006,lexy::code_point::Lo,100,0},
{0x3007,lexy::code_point::Nl,100,0},
{0x3008,lexy::code_point::Ps,0,0},
{0x3009,lexy::code_point::Pe,0,0},
{0x300A,lexy::code_point::Ps,0,0},
{0x300B,lexy::code_point::Pe,0,0},
{0x300C,lexy::code_point::Ps,0,0},
{0x300D,lexy::code_point::Pe,0,0},
{0x300E,lexy::code_point::Ps,0,0},
{0x300F,lexy::code_point::Pe,0,0},
{0x3010,lexy::code_point::Ps,0,0},
{0x3011,lexy::code_point::Pe,0,0},
{0x3012,lexy::code_point::So,0,0},
{0x3014,lexy::code_point::Ps,0,0},
{0x3015,lexy::code_point::Pe,0,0},
{0x3016,lexy::code_point::Ps,0,0},
{0x3017,lexy::code_point::Pe,0,0},
{0x3018,lexy::code_point::Ps,0,0},
{0x3019,lexy::code_point::Pe,0,0},
{0x301A,lexy::code_point::Ps,0,0},
{0x301B,lexy::code_point::Pe,0,0},
{0x301C,lexy::code_point::Pd,0,0},
{0x301D,lexy::code_point::Ps,0,0},
{0x301E,lexy::code_point::Pe,0,0},
{0x3020,lexy::code_point::So,0,0},
{0x3021,lexy::code_point::Nl,100,0},
{0x302A,lexy::code_point::Mn,64,0},
{0x302E,lexy::code_point::Mc,64,0},
{0x3030,lexy::code_point::Pd,0,0},
{0x3031,lexy::code_point::Lm,100,0},
{0x3036,lexy::code_point::So,0,0},
{0x3038,lexy::code_point::Nl,100,0},
{0x303B,lexy::code_point::Lm,100,0},
{0x303C,lexy::code_point::Lo,100,0},
{0x303D,lexy::code_point::Po,0,0},
{0x303E,lexy::code_point::So,0,0},
{0x3040,lexy::code_point::Cn,0,0},
{0x3041,lexy::code_point::Lo,100,0},
{0x3097,lexy::code_point::Cn,0,0},
{0x3099,lexy::code_point::Mn,64,0},
{0x309B,lexy::code_point::Sk,0,0},
{0x309D,lexy::code_point::Lm,100,0},
{0x309F,lexy::code_point::Lo,100,0},
{0x30A0,lexy::code_point::Pd,0,0},
{0x30A1,lexy::code_point::Lo,100,0},
{0x30FB,lexy::code_point::Po,0,0},
{0x30FC,lexy::code_point::Lm,100,0},
{0x30FF,lexy::code_point::Lo,100,0},
{0x3100,lexy::code_point::Cn,0,0},
{0x3105,lexy::code_point::Lo,100,0},
{0x3130,lexy::code_point::Cn,0,0},
{0x3131,lexy::code_point::Lo,100,0},
{0x318F,lexy::code_point::Cn,0,0},
{0x3190,lexy::code_point::So,0,0},
{0x3192,lexy::code_point::No,0,0},
{0x3196,lexy::code_point::So,0,0},
{0x31A0,lexy::code_point::Lo,100,0},
{0x31C0,lexy::code_point::So,0,0},
{0x31E4,lexy::code_point::Cn,0,0},
{0x31F0,lexy::code_point::Lo,100,0},
{0x3200,lexy::code_point::So,0,0},
{0x321F,lexy::code_point::Cn,0,0},
{0x3220,lexy::code_point::No,0,0},
{0x322A,lexy::code_point::So,0,0},
{0x3248,lexy::code_point::No,0,0},
{0x3250,lexy::code_point::So,0,0},
{0x3251,lexy::code_point::No,0,0},
{0x3260,lexy::code_point::So,0,0},
{0x3280,lexy::code_point::No,0,0},
{0x328A,lexy::code_point::So,0,0},
{0x32B1,lexy::code_point::No,0,0},
{0x32C0,lexy::code_point::So,0,0},
{0x3400,lexy::code_point::Lo,100,0},
{0x4DC0,lexy::code_point::So,0,0},
{0x4E00,lexy::code_point::Lo,100,0},
{0xA015,lexy::code_point::Lm,100,0},
{0xA016,lexy::code_point::Lo,100,0},
{0xA48D,lexy::code_point::Cn,0,0},
{0xA490,lexy::code_point::So,0,0},
{0xA4C7,lexy::code_point::Cn,0,0},
{0xA4D0,lexy::code_point::Lo,100,0},
{0xA4F8,lexy::code_point::Lm,100,0},
{0xA4FE,lexy::code_point::Po,0,0},
{0xA500,lexy::code_point::Lo,100,0},
{0xA60C,lexy::code_point::Lm,100,0},
{0xA60D,lexy::code_point::Po,0,0},
{0xA610,lexy::code_point::Lo,100,0},
{0xA620,lexy::code_point::Nd,64,0},
{0xA62A,lexy::code_point::Lo,100,0},
{0xA62C,lexy::code_point::Cn,0,0},
{0xA640,lexy::code_point::Lu,108,1},
{0xA641,lexy::code_point::Ll,116,0},
{0xA642,lexy::code_point::Lu,108,1},
{0xA643,lexy::code_point::Ll,116,0},
{0xA644,lexy::code_point::Lu,108,1},
{0xA645,lexy::code_point::Ll,116,0},
{0xA646,lexy::code_point::Lu,108,1},
{0xA647,lexy::code_point::Ll,116,0},
{0xA648,lexy::code_point::Lu,108,1},
{0xA649,lexy::code_point::Ll,116,0},
{0xA64A,lexy::code_point::Lu,108,1},
{0xA64B,lexy::code_point::Ll,116,0},
{0xA64C,lexy::code_point::Lu,108,1},
{0xA64D,lexy::code_point::Ll,116,0},
{0xA64E,lexy::code_point::Lu,108,1},
{0xA64F,lexy::code_point::Ll,116,0},
{0xA650,lexy::code_point::Lu,108,1},
{0xA651,lexy::code_point::Ll,116,0},
{0xA652,lexy::code_point::Lu,108,1},
{0xA653,lexy::code_point::Ll,116,0},
{0xA654,lexy::code_point::Lu,108,1},
{0xA655,lexy::code_point::Ll,116,0},
{0xA656,lexy::code_point::Lu,108,1},
{0xA657,lexy::code_point::Ll,116,0},
{0xA658,lexy::code_point::Lu,108,1},
{0xA659,lexy::code_point::Ll,116,0},
{0xA65A,lexy::code_point::Lu,108,1},
{0xA65B,lexy::code_point::Ll,116,0},
{0xA65C,lexy::code_point::Lu,108,1},
{0xA65D,lexy::code_point::Ll,116,0},
{0xA65E,lexy::code_point::Lu,108,1},
{0xA65F,lexy::code_point::Ll,116,0},
{0xA660,lexy::code_point::Lu,108,1},
{0xA661,lexy::code_point::Ll,116,0},
{0xA662,lexy::code_point::Lu,108,1},
{0xA663,lexy::code_point::Ll,116,0},
{0xA664,lexy::code_point::Lu,108,1},
{0xA665,lexy::code_point::Ll,116,0},
{0xA666,lexy::code_point::Lu,108,1},
{0xA667,lexy::code_point::Ll,116,0},
{0xA668,lexy::code_point::Lu,108,1},
{0xA669,lexy::code_point::Ll,116,0},
{0xA66A,lexy::code_point::Lu,108,1},
{0xA66B,lexy::code_point::Ll,116,0},
{0xA66C,lexy::code_point::Lu,108,1},
{0xA66D,lexy::code_point::Ll,116,0},
{0xA66E,lexy::code_point::Lo,100,0},
{0xA66F,lexy::code_point::Mn,64,0},
{0xA670,lexy::code_point::Me,0,0},
{0xA673,lexy::code_point::Po,0,0},
{0xA674,lexy::code_point::Mn,68,0},
{0xA67C,lexy::code_point::Mn,64,0},
{0xA67E,lexy::code_point::Po,0,0},
{0xA67F,lexy::code_point::Lm,100,0},
{0xA680,lexy::code_point::Lu,108,1},
{0xA681,lexy::code_point::Ll,116,0},
{0xA682,lexy::code_point::Lu,108,1},
{0xA683,lexy::code_point::Ll,116,0},
{0xA684,lexy::code_point::Lu,108,1},
{0xA685,lexy::code_point::Ll,116,0},
{0xA686,lexy::code_point::Lu,108,1},
{0xA687,lexy::code_point::Ll,116,0},
{0xA688,lexy::code_point::Lu,108,1},
{0xA689,lexy::code_point::Ll,116,0},
{0xA68A,lexy::code_point::Lu,108,1},
{0xA68B,lexy::code_point::Ll,116,0},
{0xA68C,lexy::code_point::Lu,108,1},
{0xA68D,lexy::code_point::Ll,116,0},
{0xA68E,lexy::code_point::Lu,108,1},
{0xA68F,lexy::code_point::Ll,116,0},
{0xA690,lexy::code_point::Lu,108,1},
{0xA691,lexy::code_point::Ll,116,0},
{0xA692,lexy::code_point::Lu,108,1},
{0xA693,lexy::code_point::Ll,116,0},
{0xA694,lexy::code_point::Lu,108,1},
{0xA695,lexy::code_point::Ll,116,0},
{0xA696,lexy::code_point::Lu,108,1},
{0xA697,lexy::code_point::Ll,116,0},
{0xA698,lexy::code_point::Lu,108,1},
{0xA699,lexy::code_point::Ll,116,0},
{0xA69A,lexy::code_point::Lu,108,1},
{0xA69B,lexy::code_point::Ll,116,0},
{0xA69C,lexy::code_point::Lm,116,0},
{0xA69E,lexy::code_point::Mn,68,0},
{0xA6A0,lexy::code_point::Lo,100,0},
{0xA6E6,lexy::code_point::Nl,100,0},
{0xA6F0,lexy::code_point::Mn,64,0},
{0xA6F2,lexy::code_point::Po,0,0},
{0xA6F8,lexy::code_point::Cn,0,0},
{0xA700,lexy::code_point::Sk,0,0},
{0xA717,lexy::code_point::Lm,100,0},
{0xA720,lexy::code_point::Sk,0,0},
{0xA722,lexy::code_point::Lu,108,1},
{0xA723,lexy::code_point::Ll,116,0},
{0xA724,lexy::code_point::Lu,108,1},
{0xA725,lexy::code_point::Ll,116,0},
{0xA726,lexy::code_point::Lu,108,1},
{0xA727,lexy::code_point::Ll,116,0},
{0xA728,lexy::code_point::Lu,108,1},
{0xA729,lexy::code_point::Ll,116,0},
{0xA72A,lexy::code_point::Lu,108,1},
{0xA72B,lexy::code_point::Ll,116,0},
{0xA72C,lexy::code_point::Lu,108,1},
{0xA72D,lexy::code_point::Ll,116,0},
{0xA72E,lexy::code_point::Lu,108,1},
{0xA72F,lexy::code_point::Ll,116,0},
{0xA732,lexy::code_point::Lu,108,1},
{0xA733,lexy::code_point::Ll,116,0},
{0xA734,lexy::code_point::Lu,108,1},
{0xA735,lexy::code_point::Ll,116,0},
{0xA736,lexy::code_point::Lu,108,1},
{0xA737,lexy::code_point::Ll,116,0},
{0xA738,lexy::code_point::Lu,108,1},
{0xA739,lexy::code_point::Ll,116,0},
{0xA73A,lexy::code_point::Lu,108,1},
{0xA73B,lexy::code_point::Ll,116,0},
{0xA73C,lexy::code_point::Lu,108,1},
{0xA73D,lexy::code_point::Ll,116,0},
{0xA73E,lexy::code_point::Lu,108,1},
{0xA73F,lexy::code_point::Ll,116,0},
{0xA740,lexy::code_point::Lu,108,1},
{0xA741,lexy::code_point::Ll,116,0},
{0xA742,lexy::code_point::Lu,108,1},
{0xA743,lexy::code_point::Ll,116,0},
{0xA744,lexy::code_point::Lu,108,1},
{0xA745,lexy::code_point::Ll,116,0},
{0xA746,lexy::code_point::Lu,108,1},
{0xA747,lexy::code_point::Ll,116,0},
{0xA748,lexy::code_point::Lu,108,1},
{0xA749,lexy::code_point::Ll,116,0},
{0xA74A,lexy::code_point::Lu,108,1},
{0xA74B,lexy::code_point::Ll,116,0},
{0xA74C,lexy::code_point::Lu,108,1},
{0xA74D,lexy::code_point::Ll,116,0},
{0xA74E,lexy::code_point::Lu,108,1},
{0xA74F,lexy::code_point::Ll,116,0},
{0xA750,lexy::code_point::Lu,108,1},
{0xA751,lexy::code_point::Ll,116,0},
{0xA752,lexy::code_point::Lu,108,1},
{0xA753,lexy::code_point::Ll,116,0},
{0xA754,lexy::code_point::Lu,108,1},
{0xA755,lexy::code_point::Ll,116,0},
{0xA756,lexy::code_point::Lu,108,1},
{0xA757,lexy::code_point::Ll,116,0},
{0xA758,lexy::code_point::Lu,108,1},
{0xA759,lexy::code_point::Ll,116,0},
{0xA75A,lexy::code_point::Lu,108,1},
{0xA75B,lexy::code_point::Ll,116,0},
{0xA75C,lexy::code_point::Lu,108,1},
{0xA75D,lexy::code_point::Ll,116,0},
{0xA75E,lexy::code_point::Lu,108,1},
{0xA75F,lexy::code_point::Ll,116,0},
{0xA760,lexy::code_point::Lu,108,1},
{0xA761,lexy::code_point::Ll,116,0},
{0xA762,lexy::code_point::Lu,108,1},
{0xA763,lexy::code_point::Ll,116,0},
{0xA764,lexy::code_point::Lu,108,1},
{0xA765,lexy::code_point::Ll,116,0},
{0xA766,lexy::code_point::Lu,108,1},
{0xA767,lexy::code_point::Ll,116,0},
{0xA768,lexy::code_point::Lu,108,1},
{0xA769,lexy::code_point::Ll,116,0},
{0xA76A,lexy::code_point::Lu,108,1},
{0xA76B,lexy::code_point::Ll,116,0},
{0xA76C,lexy::code_point::Lu,108,1},
{0xA76D,lexy::code_point::Ll,116,0},
{0xA76E,lexy::code_point::Lu,108,1},
{0xA76F,lexy::code_point::Ll,116,0},
{0xA770,lexy::code_point::Lm,116,0},
{0xA771,lexy::code_point::Ll,116,0},
{0xA779,lexy::code_point::Lu,108,1},
{0xA77A,lexy::code_point::Ll,116,0},
{0xA77B,lexy::code_point::Lu,108,1},
{0xA77C,lexy::code_point::Ll,116,0},
{0xA77D,lexy::code_point::Lu,108,-35332},
{0xA77E,lexy::code_point::Lu,108,1},
{0xA77F,lexy::code_point::Ll,116,0},
{0xA780,lexy::code_point::Lu,108,1},
{0xA781,lexy::code_point::Ll,116,0},
{0xA782,lexy::code_point::Lu,108,1},
{0xA783,lexy::code_point::Ll,116,0},
{0xA784,lexy::code_point::Lu,108,1},
{0xA785,lexy::code_point::Ll,116,0},
{0xA786,lexy::code_point::Lu,108,1},
{0xA787,lexy::code_point::Ll,116,0},
{0xA788,lexy::code_point::Lm,100,0},
{0xA789,lexy::code_point::Sk,0,0},
{0xA78B,lexy::code_point::Lu,108,1},
{0xA78C,lexy::code_point::Ll,116,0},
{0xA78D,lexy::code_point::Lu,108,-42280},
{0xA78E,lexy::code_point::Ll,116,0},
{0xA78F,lexy::code_point::Lo,100,0},
{0xA790,lexy::code_point::Lu,108,1},
{0xA791,lexy::code_point::Ll,116,0},
{0xA792,lexy::code_point::Lu,108,1},
{0xA793,lexy::code_point::Ll,116,0},
{0xA796,lexy::code_point::Lu,108,1},
{0xA797,lexy::code_point::Ll,116,0},
{0xA798,lexy::code_point::Lu,108,1},
{0xA799,lexy::code_point::Ll,116,0},
{0xA79A,lexy::code_point::Lu,108,1},
{0xA79B,lexy::code_point::Ll,116,0},
{0xA79C,lexy::code_point::Lu,108,1},
{0xA79D,lexy::code_point::Ll,116,0},
{0xA79E,lexy::code_point::Lu,108,1},
{0xA79F,lexy::code_point::Ll,116,0},
{0xA7A0,lexy::code_point::Lu,108,1},
{0xA7A1,lexy::code_point::Ll,116,0},
{0xA7A2,lexy::code_point::Lu,108,1},
{0xA7A3,lexy::code_point::Ll,116,0},
{0xA7A4,lexy::code_point::Lu,108,1},
{0xA7A5,lexy::code_point::Ll,116,0},
{0xA7A6,lexy::code_point::Lu,108,1},
{0xA7A7,lexy::code_point::Ll,116,0},
{0xA7A8,lexy::code_point::Lu,108,1},
{0xA7A9,lexy::code_point::Ll,116,0},
{0xA7AA,lexy::code_point::Lu,108,-42308},
{0xA7AB,lexy::code_point::Lu,108,-42319},
{0xA7AC,lexy::code_point::Lu,108,-42315},
{0xA7AD,lexy::code_point::Lu,108,-42305},
{0xA7AE,lexy::code_point::Lu,108,-42308},
{0xA7AF,lexy::code_point::Ll,116,0},
{0xA7B0,lexy::code_point::Lu,108,-42258},
{0xA7B1,lexy::code_point::Lu,108,-42282},
{0xA7B2,lexy::code_point::Lu,108,-42261},
{0xA7B3,lexy::code_point::Lu,108,928},
{0xA7B4,lexy::code_point::Lu,108,1},
{0xA7B5,lexy::code_point::Ll,116,0},
{0xA7B6,lexy::code_point::Lu,108,1},
{0xA7B7,lexy::code_point::Ll,116,0},
{0xA7B8,lexy::code_point::Lu,108,1},
{0xA7B9,lexy::code_point::Ll,116,0},
{0xA7BA,lexy::code_point::Lu,108,1},
{0xA7BB,lexy::code_point::Ll,116,0},
{0xA7BC,lexy::code_point::Lu,108,1},
{0xA7BD,lexy::code_point::Ll,116,0},
{0xA7BE,lexy::code_point::Lu,108,1},
{0xA7BF,lexy::code_point::Ll,116,0},
{0xA7C0,lexy::code_point::Lu,108,1},
{0xA7C1,lexy::code_point::Ll,116,0},
{0xA7C2,lexy::code_point::Lu,108,1},
{0xA7C3,lexy::code_point::Ll,116,0},
{0xA7C4,lexy::code_point::Lu,108,-48},
{0xA7C5,lexy::code_point::Lu,108,-42307},
{0xA7C6,lexy::code_point::Lu,108,-35384},
{0xA7C7,lexy::code_point::Lu,108,1},
{0xA7C8,lexy::code_point::Ll,116,0},
{0xA7C9,lexy::code_point::Lu,108,1},
{0xA7CA,lexy::code_point::Ll,116,0},
{0xA7CB,lexy::code_point::Cn,0,0},
{0xA7D0,lexy::code_point::Lu,108,1},
{0xA7D1,lexy::code_point::Ll,116,0},
{0xA7D2,lexy::code_point::Cn,0,0},
{0xA7D3,lexy::code_point::Ll,116,0},
{0xA7D4,lexy::code_point::Cn,0,0},
{0xA7D5,lexy::code_point::Ll,116,0},
{0xA7D6,lexy::code_point::Lu,108,1},
{0xA7D7,lexy::code_point::Ll,116,0},
{0xA7D8,lexy::code_point::Lu,108,1},
{0xA7D9,lexy::code_point::Ll,116,0},
{0xA7DA,lexy::code_point::Cn,0,0},
{0xA7F2,lexy::code_point::Lm,116,0},
{0xA7F5,lexy::code_point::Lu,108,1},
{0xA7F6,lexy::code_point::Ll,116,0},
{0xA7F7,lexy::code_point::Lo,100,0},
{0xA7F8,lexy::code_point::Lm,116,0},
{0xA7FA,lexy::code_point::Ll,116,0},
{0xA7FB,lexy::code_point::Lo,100,0},
{0xA802,lexy::code_point::Mn,68,0},
{0xA803,lexy::code_point::Lo,100,0},
{0xA806,lexy::code_point::Mn,64,0},
{0xA807,lexy::code_point::Lo,100,0},
{0xA80B,lexy::code_point::Mn,68,0},
{0xA80C,lexy::code_point::Lo,100,0},
{0xA823,lexy::code_point::Mc,68,0},
{0xA825,lexy::code_point::Mn,68,0},
{0xA827,lexy::code_point::Mc,68,0},
{0xA828,lexy::code_point::So,0,0},
{0xA82C,lexy::code_point::Mn,64,0},
{0xA82D,lexy::code_point::Cn,0,0},
{0xA830,lexy::code_point::No,0,0},
{0xA836,lexy::code_point::So,0,0},
{0xA838,lexy::code_point::Sc,0,0},
{0xA839,lexy::code_point::So,0,0},
{0xA83A,lexy::code_point::Cn,0,0},
{0xA840,lexy::code_point::Lo,100,0},
{0xA874,lexy::code_point::Po,0,0},
{0xA878,lexy::code_point::Cn,0,0},
{0xA880,lexy::code_point::Mc,68,0},
{0xA882,lexy::code_point::Lo,100,0},
{0xA8B4,lexy::code_point::Mc,68,0},
{0xA8C4,lexy::code_point::Mn,64,0},
{0xA8C5,lexy::code_point::Mn,68,0},
{0xA8C6,lexy::code_point::Cn,0,0},
{0xA8CE,lexy::code_point::Po,0,0},
{0xA8D0,lexy::code_point::Nd,64,0},
{0xA8DA,lexy::code_point::Cn,0,0},
{0xA8E0,lexy::code_point::Mn,64,0},
{0xA8F2,lexy::code_point::Lo,100,0},
{0xA8F8,lexy::code_point::Po,0,0},
{0xA8FB,lexy::code_point::Lo,100,0},
{0xA8FC,lexy::code_point::Po,0,0},
{0xA8FD,lexy::code_point::Lo,100,0},
{0xA8FF,lexy::code_point::Mn,68,0},
{0xA900,lexy::code_point::Nd,64,0},
{0xA90A,lexy::code_point::Lo,100,0},
{0xA926,lexy::code_point::Mn,68,0},
{0xA92B,lexy::code_point::Mn,64,0},
{0xA92E,lexy::code_point::Po,0,0},
{0xA930,lexy::code_point::Lo,100,0},
{0xA947,lexy::code_point::Mn,68,0},
{0xA952,lexy::code_point::Mc,68,0},
{0xA953,lexy::code_point::Mc,64,0},
{0xA954,lexy::code_point::Cn,0,0},
{0xA95F,lexy::code_point::Po,0,0},
{0xA960,lexy::code_point::Lo,100,0},
{0xA97D,lexy::code_point::Cn,0,0},
{0xA980,lexy::code_point::Mn,68,0},
{0xA983,lexy::code_point::Mc,68,0},
{0xA984,lexy::code_point::Lo,100,0},
{0xA9B3,lexy::code_point::Mn,64,0},
{0xA9B4,lexy::code_point::Mc,68,0},
{0xA9B6,lexy::code_point::Mn,68,0},
{0xA9BA,lexy::code_point::Mc,68,0},
{0xA9BC,lexy::code_point::Mn,68,0},
{0xA9BE,lexy::code_point::Mc,68,0},
{0xA9C0,lexy::code_point::Mc,64,0},
{0xA9C1,lexy::code_point::Po,0,0},
{0xA9CE,lexy::code_point::Cn,0,0},
{0xA9CF,lexy::code_point::Lm,100,0},
{0xA9D0,lexy::code_point::Nd,64,0},
{0xA9DA,lexy::code_point::Cn,0,0},
{0xA9DE,lexy::code_point::Po,0,0},
{0xA9E0,lexy::code_point::Lo,100,0},
{0xA9E5,lexy::code_point::Mn,68,0},
{0xA9E6,lexy::code_point::Lm,100,0},
{0xA9E7,lexy::code_point::Lo,100,0},
{0xA9F0,lexy::code_point::Nd,64,0},
{0xA9FA,lexy::code_point::Lo,100,0},
{0xA9FF,lexy::code_point::Cn,0,0},
{0xAA00,lexy::code_point::Lo,100,0},
{0xAA29,lexy::code_point::Mn,68,0},
{0xAA2F,lexy::code_point::Mc,68,0},
{0xAA31,lexy::code_point::Mn,68,0},
{0xAA33,lexy::code_point::Mc,68,0},
{0xAA35,lexy::code_point::Mn,68,0},
{0xAA37,lexy::code_point::Cn,0,0},
{0xAA40,lexy::code_point::Lo,100,0},
{0xAA43,lexy::code_point::Mn,68,0},
{0xAA44,lexy::code_point::Lo,100,0},
{0xAA4C,lexy::code_point::Mn,68,0},
{0xAA4D,lexy::code_point::Mc,68,0},
{0xAA4E,lexy::code_point::Cn,0,0},
{0xAA50,lexy::code_point::Nd,64,0},
{0xAA5A,lexy::code_point::Cn,0,0},
{0xAA5C,lexy::code_point::Po,0,0},
{0xAA60,lexy::code_point::Lo,100,0},
{0xAA70,lexy::code_point::Lm,100,0},
{0xAA71,lexy::code_point::Lo,100,0},
{0xAA77,lexy::code_point::So,0,0},
{0xAA7A,lexy::code_point::Lo,100,0},
{0xAA7B,lexy::code_point::Mc,68,0},
{0xAA7C,lexy::code_point::Mn,68,0},
{0xAA7D,lexy::code_point::Mc,68,0},
{0xAA7E,lexy::code_point::Lo,100,0},
{0xAAB0,lexy::code_point::Mn,68,0},
{0xAAB1,lexy::code_point::Lo,100,0},
{0xAAB2,lexy::code_point::Mn,68,0},
{0xAAB5,lexy::code_point::Lo,100,0},
{0xAAB7,lexy::code_point::Mn,68,0},
{0xAAB9,lexy::code_point::Lo,100,0},
{0xAABE,lexy::code_point::Mn,68,0},
{0xAABF,lexy::code_point::Mn,64,0},
{0xAAC0,lexy::code_point::Lo,100,0},
{0xAAC1,lexy::code_point::Mn,64,0},
{0xAAC2,lexy::code_point::Lo,100,0},
{0xAAC3,lexy::code_point::Cn,0,0},
{0xAADB,lexy::code_point::Lo,100,0},
{0xAADD,lexy::code_point::Lm,100,0},
{0xAADE,lexy::code_point::Po,0,0},
{0xAAE0,lexy::code_point::Lo,100,0},
{0xAAEB,lexy::code_point::Mc,68,0},
{0xAAEC,lexy::code_point::Mn,68,0},
{0xAAEE,lexy::code_point::Mc,68,0},
{0xAAF0,lexy::code_point::Po,0,0},
{0xAAF2,lexy::code_point::Lo,100,0},
{0xAAF3,lexy::code_point::Lm,100,0},
{0xAAF5,lexy::code_point::Mc,68,0},
{0xAAF6,lexy::code_point::Mn,64,0},
{0xAAF7,lexy::code_point::Cn,0,0},
{0xAB01,lexy::code_point::Lo,100,0},
{0xAB07,lexy::code_point::Cn,0,0},
{0xAB09,lexy::code_point::Lo,100,0},
{0xAB0F,lexy::code_point::Cn,0,0},
{0xAB11,lexy::code_point::Lo,100,0},
{0xAB17,lexy::code_point::Cn,0,0},
{0xAB20,lexy::code_point::Lo,100,0},
{0xAB27,lexy::code_point::Cn,0,0},
{0xAB28,lexy::code_point::Lo,100,0},
{0xAB2F,lexy::code_point::Cn,0,0},
{0xAB30,lexy::code_point::Ll,116,0},
{0xAB5B,lexy::code_point::Sk,0,0},
{0xAB5C,lexy::code_point::Lm,116,0},
{0xAB60,lexy::code_point::Ll,116,0},
{0xAB69,lexy::code_point::Lm,116,0},
{0xAB6A,lexy::code_point::Sk,0,0},
{0xAB6C,lexy::code_point::Cn,0,0},
{0xAB70,lexy::code_point::Ll,116,-38864},
{0xABC0,lexy::code_point::Lo,100,0},
{0xABE3,lexy::code_point::Mc,68,0},
{0xABE5,lexy::code_point::Mn,68,0},
{0xABE6,lexy::code_point::Mc,68,0},
{0xABE8,lexy::code_point::Mn,68,0},
{0xABE9,lexy::code_point::Mc,68,0},
{0xABEB,lexy::code_point::Po,0,0},
{0xABEC,lexy::code_point::Mc,64,0},
{0xABED,lexy::code_point::Mn,64,0},
{0xABEE,lexy::code_point::Cn,0,0},
{0xABF0,lexy::code_point::Nd,64,0},
{0xABFA,lexy::code_point::Cn,0,0},
{0xAC00,lexy::code_point::Lo,100,0},
{0xD7A4,lexy::code_point::Cn,0,0},
{0xD7B0,lexy::code_point::Lo,100,0},
{0xD7C7,lexy::code_point::Cn,0,0},
{0xD7CB,lexy::code_point::Lo,100,0},
{0xD7FC,lexy::code_point::Cn,0,0},
{0xD800,lexy::code_point::Cs,0,0},
{0xE000,lexy::code_point::Co,0,0},
{0xF900,lexy::code_point::Lo,100,0},
{0xFA6E,lexy::code_point::Cn,0,0},
{0xFA70,lexy::code_point::Lo,100,0},
{0xFADA,lexy::code_point::Cn,0,0},
{0xFB00,lexy::code_point::Ll,116,0},
{0xFB07,lexy::code_point::Cn,0,0},
{0xFB13,lexy::code_point::Ll,116,0},
{0xFB18,lexy::code_point::Cn,0,0},
{0xFB1D,lexy::code_point::Lo,100,0},
{0xFB1E,lexy::code_point::Mn,68,0},
{0xFB1F,lexy::code_point::Lo,100,0},
{0xFB29,lexy::code_point::Sm,0,0},
{0xFB2A,lexy::code_point::Lo,100,0},
{0xFB37,lexy::code_point::Cn,0,0},
{0xFB38,lexy::code_point::Lo,100,0},
{0xFB3D,lexy::code_point::Cn,0,0},
{0xFB3E,lexy::code_point::Lo,100,0},
{0xFB3F,lexy::code_point::Cn,0,0},
{0xFB40,lexy::code_point::Lo,100,0},
{0xFB42,lexy::code_point::Cn,0,0},
{0xFB43,lexy::code_point::Lo,100,0},
{0xFB45,lexy::code_point::Cn,0,0},
{0xFB46,lexy::code_point::Lo,100,0},
{0xFBB2,lexy::code_point::Sk,0,0},
{0xFBC3,lexy::code_point::Cn,0,0},
{0xFBD3,lexy::code_point::Lo,100,0},
{0xFC5E,lexy::code_point::Lo,4,0},
{0xFC64,lexy::code_point::Lo,100,0},
{0xFD3E,lexy::code_point::Pe,0,0},
{0xFD3F,lexy::code_point::Ps,0,0},
{0xFD40,lexy::code_point::So,0,0},
{0xFD50,lexy::code_point::Lo,100,0},
{0xFD90,lexy::code_point::Cn,0,0},
{0xFD92,lexy::code_point::Lo,100,0},
{0xFDC8,lexy::code_point::Cn,0,0},
{0xFDCF,lexy::code_point::So,0,0},
{0xFDD0,lexy::code_point::Cn,0,0},
{0xFDF0,lexy::code_point::Lo,100,0},
{0xFDFA,lexy::code_point::Lo,4,0},
{0xFDFC,lexy::code_point::Sc,0,0},
{0xFDFD,lexy::code_point::So,0,0},
{0xFE00,lexy::code_point::Mn,64,0},
{0xFE10,lexy::code_point::Po,0,0},
{0xFE17,lexy::code_point::Ps,0,0},
{0xFE18,lexy::code_point::Pe,0,0},
{0xFE19,lexy::code_point::Po,0,0},
{0xFE1A,lexy::code_point::Cn,0,0},
{0xFE20,lexy::code_point::Mn,64,0},
{0xFE30,lexy::code_point::Po,0,0},
{0xFE31,lexy::code_point::Pd,0,0},
{0xFE33,lexy::code_point::Pc,64,0},
{0xFE35,lexy::code_point::Ps,0,0},
{0xFE36,lexy::code_point::Pe,0,0},
{0xFE37,lexy::code_point::Ps,0,0},
{0xFE38,lexy::code_point::Pe,0,0},
{0xFE39,lexy::code_point::Ps,0,0},
{0xFE3A,lexy::code_point::Pe,0,0},
{0xFE3B,lexy::code_point::Ps,0,0},
{0xFE3C,lexy::code_point::Pe,0,0},
{0xFE3D,lexy::code_point::Ps,0,0},
{0xFE3E,lexy::code_point::Pe,0,0},
{0xFE3F,lexy::code_point::Ps,0,0},
{0xFE40,lexy::code_point::Pe,0,0},
{0xFE41,lexy::code_point::Ps,0,0},
{0xFE42,lexy::code_point::Pe,0,0},
{0xFE43,lexy::code_point::Ps,0,0},
{0xFE44,lexy::code_point::Pe,0,0},
{0xFE45,lexy::code_point::Po,0,0},
{0xFE47,lexy::code_point::Ps,0,0},
{0xFE48,lexy::code_point::Pe,0,0},
{0xFE49,lexy::code_point::Po,0,0},
{0xFE4D,lexy::code_point::Pc,64,0},
{0xFE50,lexy::code_point::Po,0,0},
{0xFE53,lexy::code_point::Cn,0,0},
{0xFE54,lexy::code_point::Po,0,0},
{0xFE58,lexy::code_point::Pd,0,0},
{0xFE59,lexy::code_point::Ps,0,0},
{0xFE5A,lexy::code_point::Pe,0,0},
{0xFE5B,lexy::code_point::Ps,0,0},
{0xFE5C,lexy::code_point::Pe,0,0},
{0xFE5D,lexy::code_point::Ps,0,0},
{0xFE5E,lexy::code_point::Pe,0,0},
{0xFE5F,lexy::code_point::Po,0,0},
{0xFE62,lexy::code_point::Sm,0,0},
{0xFE63,lexy::code_point::Pd,0,0},
{0xFE64,lexy::code_point::Sm,0,0},
{0xFE67,lexy::code_point::Cn,0,0},
{0xFE68,lexy::code_point::Po,0,0},
{0xFE69,lexy::code_point::Sc,0,0},
{0xFE6A,lexy::code_point::Po,0,0},
{0xFE6C,lexy::code_point::Cn,0,0},
{0xFE70,lexy::code_point::Lo,4,0},
{0xFE71,lexy::code_point::Lo,100,0},
{0xFE72,lexy::code_point::Lo,4,0},
{0xFE73,lexy::code_point::Lo,100,0},
{0xFE74,lexy::code_point::Lo,4,0},
{0xFE75,lexy::code_point::Cn,0,0},
{0xFE76,lexy::code_point::Lo,4,0},
{0xFE77,lexy::code_point::Lo,100,0},
{0xFE78,lexy::code_point::Lo,4,0},
{0xFE79,lexy::code_point::Lo,100,0},
{0xFE7A,lexy::code_point::Lo,4,0},
{0xFE7B,lexy::code_point::Lo,100,0},
{0xFE7C,lexy::code_point::Lo,4,0},
{0xFE7D,lexy::code_point::Lo,100,0},
{0xFE7E,lexy::code_point::Lo,4,0},
{0xFE7F,lexy::code_point::Lo,100,0},
{0xFEFD,lexy::code_point::Cn,0,0},
{0xFEFF,lexy::code_point::Cf,0,0},
{0xFF00,lexy::code_point::Cn,0,0},
{0xFF01,lexy::code_point::Po,0,0},
{0xFF04,lexy::code_point::Sc,0,0},
{0xFF05,lexy::code_point::Po,0,0},
{0xFF08,lexy::code_point::Ps,0,0},
{0xFF09,lexy::code_point::Pe,0,0},
{0xFF0A,lexy::code_point::Po,0,0},
{0xFF0B,lexy::code_point::Sm,0,0},
{0xFF0C,lexy::code_point::Po,0,0},
{0xFF0D,lexy::code_point::Pd,0,0},
{0xFF0E,lexy::code_point::Po,0,0},
{0xFF10,lexy::code_point::Nd,64,0},
{0xFF1A,lexy::code_point::Po,0,0},
{0xFF1C,lexy::code_point::Sm,0,0},
{0xFF1F,lexy::code_point::Po,0,0},
{0xFF21,lexy::code_point::Lu,108,32},
{0xFF3B,lexy::code_point::Ps,0,0},
{0xFF3C,lexy::code_point::Po,0,0},
{0xFF3D,lexy::code_point::Pe,0,0},
{0xFF3E,lexy::code_point::Sk,0,0},
{0xFF3F,lexy::code_point::Pc,64,0},
{0xFF40,lexy::code_point::Sk,0,0},
{0xFF41,lexy::code_point::Ll,116,0},
{0xFF5B,lexy::code_point::Ps,0,0},
{0xFF5C,lexy::code_point::Sm,0,0},
{0xFF5D,lexy::code_point::Pe,0,0},
{0xFF5E,lexy::code_point::Sm,0,0},
{0xFF5F,lexy::code_point::Ps,0,0},
{0xFF60,lexy::code_point::Pe,0,0},
{0xFF61,lexy::code_point::Po,0,0},
{0xFF62,lexy::code_point::Ps,0,0},
{0xFF63,lexy::code_point::Pe,0,0},
{0xFF64,lexy::code_point::Po,0,0},
{0xFF66,lexy::code_point::Lo,100,0},
{0xFF70,lexy::code_point::Lm,100,0},
{0xFF71,lexy::code_point::Lo,100,0},
{0xFF9E,lexy::code_point::Lm,68,0},
{0xFFA0,lexy::code_point::Lo,100,0},
{0xFFBF,lexy::code_point::Cn,0,0},
{0xFFC2,lexy::code_point::Lo,100,0},
{0xFFC8,lexy::code_point::Cn,0,0},
{0xFFCA,lexy::code_point::Lo,100,0},
{0xFFD0,lexy::code_point::Cn,0,0},
{0xFFD2,lexy::code_point::Lo,100,0},
{0xFFD8,lexy::code_point::Cn,0,0},
{0xFFDA,lexy::code_point::Lo,100,0},
{0xFFDD,lexy::code_point::Cn,0,0},
{0xFFE0,lexy::code_point::Sc,0,0},
{0xFFE2,lexy::code_point::Sm,0,0},
{0xFFE3,lexy::code_point::Sk,0,0},
{0xFFE4,lexy::code_point::So,0,0},
{0xFFE5,lexy::code_point::Sc,0,0},
{0xFFE7,lexy::code_point::Cn,0,0},
{0xFFE8,lexy::code_point::So,0,0},
{0xFFE9,lexy::code_point::Sm,0,0},
{0xFFED,lexy::code_point::So,0,0},
{0xFFEF,lexy::code_point::Cn,0,0},
{0xFFF9,lexy::code_point::Cf,0,0},
{0xFFFC,lexy::code_point::So,0,0},
{0xFFFE,lexy::code_point::Cn,0,0},
{0x10000,lexy::code_point::Lo,100,0},
{0x1000C,lexy::code_point::Cn,0,0},
{0x1000D,lexy::code_point::Lo,100,0},
{0x10027,lexy::code_point::Cn,0,0},
{0x10028,lexy::code_point::Lo,100,0},
{0x1003B,lexy::code_point::Cn,0,0},
{0x1003C,lexy::code_point::Lo,100,0},
{0x1003E,lexy::code_point::Cn,0,0},
{0x1003F,lexy::code_point::Lo,100,0},
{0x1004E,lexy::code_point::Cn,0,0},
{0x10050,lexy::code_point::Lo,100,0},
{0x1005E,lexy::code_point::Cn,0,0},
{0x10080,lexy::code_point::Lo,100,0},
{0x100FB,lexy::code_point::Cn,0,0},
{0x10100,lexy::code_point::Po,0,0},
{0x10103,lexy::code_point::Cn,0,0},
{0x10107,lexy::code_point::No,0,0},
{0x10134,lexy::code_point::Cn,0,0},
{0x10137,lexy::code_point::So,0,0},
{0x10140,lexy::code_point::Nl,100,0},
{0x10175,lexy::code_point::No,0,0},
{0x10179,lexy::code_point::So,0,0},
{0x1018A,lexy::code_point::No,0,0},
{0x1018C,lexy::code_point::So,0,0},
{0x1018F,lexy::code_point::Cn,0,0},
{0x10190,lexy::code_point::So,0,0},
{0x1019D,lexy::code_point::Cn,0,0},
{0x101A0,lexy::code_point::So,0,0},
{0x101A1,lexy::code_point::Cn,0,0},
{0x101D0,lexy::code_point::So,0,0},
{0x101FD,lexy::code_point::Mn,64,0},
{0x101FE,lexy::code_point::Cn,0,0},
{0x10280,lexy::code_point::Lo,100,0},
{0x1029D,lexy::code_point::Cn,0,0},
{0x102A0,lexy::code_point::Lo,100,0},
{0x102D1,lexy::code_point::Cn,0,0},
{0x102E0,lexy::code_point::Mn,64,0},
{0x102E1,lexy::code_point::No,0,0},
{0x102FC,lexy::code_point::Cn,0,0},
{0x10300,lexy::code_point::Lo,100,0},
{0x10320,lexy::code_point::No,0,0},
{0x10324,lexy::code_point::Cn,0,0},
{0x1032D,lexy::code_point::Lo,100,0},
{0x10341,lexy::code_point::Nl,100,0},
{0x10342,lexy::code_point::Lo,100,0},
{0x1034A,lexy::code_point::Nl,100,0},
{0x1034B,lexy::code_point::Cn,0,0},
{0x10350,lexy::code_point::Lo,100,0},
{0x10376,lexy::code_point::Mn,68,0},
{0x1037B,lexy::code_point::Cn,0,0},
{0x10380,lexy::code_point::Lo,100,0},
{0x1039E,lexy::code_point::Cn,0,0},
{0x1039F,lexy::code_point::Po,0,0},
{0x103A0,lexy::code_point::Lo,100,0},
{0x103C4,lexy::code_point::Cn,0,0},
{0x103C8,lexy::code_point::Lo,100,0},
{0x103D0,lexy::code_point::Po,0,0},
{0x103D1,lexy::code_point::Nl,100,0},
{0x103D6,lexy::code_point::Cn,0,0},
{0x10400,lexy::code_point::Lu,108,40},
{0x10428,lexy::code_point::Ll,116,0},
{0x10450,lexy::code_point::Lo,100,0},
{0x1049E,lexy::code_point::Cn,0,0},
{0x104A0,lexy::code_point::Nd,64,0},
{0x104AA,lexy::code_point::Cn,0,0},
{0x104B0,lexy::code_point::Lu,108,40},
{0x104D4,lexy::code_point::Cn,0,0},
{0x104D8,lexy::code_point::Ll,116,0},
{0x104FC,lexy::code_point::Cn,0,0},
{0x10500,lexy::code_point::Lo,100,0},
{0x10528,lexy::code_point::Cn,0,0},
{0x10530,lexy::code_point::Lo,100,0},
{0x10564,lexy::code_point::Cn,0,0},
{0x1056F,lexy::code_point::Po,0,0},
{0x10570,lexy::code_point::Lu,108,39},
{0x1057B,lexy::code_point::Cn,0,0},
{0x1057C,lexy::code_point::Lu,108,39},
{0x1058B,lexy::code_point::Cn,0,0},
{0x1058C,lexy::code_point::Lu,108,39},
{0x10593,lexy::code_point::Cn,0,0},
{0x10594,lexy::code_point::Lu,108,39},
{0x10596,lexy::code_point::Cn,0,0},
{0x10597,lexy::code_point::Ll,116,0},
{0x105A2,lexy::code_point::Cn,0,0},
{0x105A3,lexy::code_point::Ll,116,0},
{0x105B2,lexy::code_point::Cn,0,0},
{0x105B3,lexy::code_point::Ll,116,0},
{0x105BA,lexy::code_point::Cn,0,0},
{0x105BB,lexy::code_point::Ll,116,0},
{0x105BD,lexy::code_point::Cn,0,0},
{0x10600,lexy::code_point::Lo,100,0},
{0x10737,lexy::code_point::Cn,0,0},
{0x10740,lexy::code_point::Lo,100,0},
{0x10756,lexy::code_point::Cn,0,0},
{0x10760,lexy::code_point::Lo,100,0},
{0x10768,lexy::code_point::Cn,0,0},
{0x10780,lexy::code_point::Lm,116,0},
{0x10781,lexy::code_point::Lm,100,0},
{0x10783,lexy::code_point::Lm,116,0},
{0x10786,lexy::code_point::Cn,0,0},
{0x10787,lexy::code_point::Lm,116,0},
{0x107B1,lexy::code_point::Cn,0,0},
{0x107B2,lexy::code_point::Lm,116,0},
{0x107BB,lexy::code_point::Cn,0,0},
{0x10800,lexy::code_point::Lo,100,0},
{0x10806,lexy::code_point::Cn,0,0},
{0x10808,lexy::code_point::Lo,100,0},
{0x10809,lexy::code_point::Cn,0,0},
{0x1080A,lexy::code_point::Lo,100,0},
{0x10836,lexy::code_point::Cn,0,0},
{0x10837,lexy::code_point::Lo,100,0},
{0x10839,lexy::code_point::Cn,0,0},
{0x1083C,lexy::code_point::Lo,100,0},
{0x1083D,lexy::code_point::Cn,0,0},
{0x1083F,lexy::code_point::Lo,100,0},
{0x10856,lexy::code_point::Cn,0,0},
{0x10857,lexy::code_point::Po,0,0},
{0x10858,lexy::code_point::No,0,0},
{0x10860,lexy::code_point::Lo,100,0},
{0x10877,lexy::code_point::So,0,0},
{0x10879,lexy::code_point::No,0,0},
{0x10880,lexy::code_point::Lo,100,0},
{0x1089F,lexy::code_point::Cn,0,0},
{0x108A7,lexy::code_point::No,0,0},
{0x108B0,lexy::code_point::Cn,0,0},
{0x108E0,lexy::code_point::Lo,100,0},
{0x108F3,lexy::code_point::Cn,0,0},
{0x108F4,lexy::code_point::Lo,100,0},
{0x108F6,lexy::code_point::Cn,0,0},
{0x108FB,lexy::code_point::No,0,0},
{0x10900,lexy::code_point::Lo,100,0},
{0x10916,lexy::code_point::No,0,0},
{0x1091C,lexy::code_point::Cn,0,0},
{0x1091F,lexy::code_point::Po,0,0},
{0x10920,lexy::code_point::Lo,100,0},
{0x1093A,lexy::code_point::Cn,0,0},
{0x1093F,lexy::code_point::Po,0,0},
{0x10940,lexy::code_point::Cn,0,0},
{0x10980,lexy::code_point::Lo,100,0},
{0x109B8,lexy::code_point::Cn,0,0},
{0x109BC,lexy::code_point::No,0,0},
{0x109BE,lexy::code_point::Lo,100,0},
{0x109C0,lexy::code_point::No,0,0},
{0x109D0,lexy::code_point::Cn,0,0},
{0x109D2,lexy::code_point::No,0,0},
{0x10A00,lexy::code_point::Lo,100,0},
{0x10A01,lexy::code_point::Mn,68,0},
{0x10A04,lexy::code_point::Cn,0,0},
{0x10A05,lexy::code_point::Mn,68,0},
{0x10A07,lexy::code_point::Cn,0,0},
{0x10A0C,lexy::code_point::Mn,68,0},
{0x10A10,lexy::code_point::Lo,100,0},
{0x10A14,lexy::code_point::Cn,0,0},
{0x10A15,lexy::code_point::Lo,100,0},
{0x10A18,lexy::code_point::Cn,0,0},
{0x10A19,lexy::code_point::Lo,100,0},
{0x10A36,lexy::code_point::Cn,0,0},
{0x10A38,lexy::code_point::Mn,64,0},
{0x10A3B,lexy::code_point::Cn,0,0},
{0x10A3F,lexy::code_point::Mn,64,0},
{0x10A40,lexy::code_point::No,0,0},
{0x10A49,lexy::code_point::Cn,0,0},
{0x10A50,lexy::code_point::Po,0,0},
{0x10A59,lexy::code_point::Cn,0,0},
{0x10A60,lexy::code_point::Lo,100,0},
{0x10A7D,lexy::code_point::No,0,0},
{0x10A7F,lexy::code_point::Po,0,0},
{0x10A80,lexy::code_point::Lo,100,0},
{0x10A9D,lexy::code_point::No,0,0},
{0x10AA0,lexy::code_point::Cn,0,0},
{0x10AC0,lexy::code_point::Lo,100,0},
{0x10AC8,lexy::code_point::So,0,0},
{0x10AC9,lexy::code_point::Lo,100,0},
{0x10AE5,lexy::code_point::Mn,64,0},
{0x10AE7,lexy::code_point::Cn,0,0},
{0x10AEB,lexy::code_point::No,0,0},
{0x10AF0,lexy::code_point::Po,0,0},
{0x10AF7,lexy::code_point::Cn,0,0},
{0x10B00,lexy::code_point::Lo,100,0},
{0x10B36,lexy::code_point::Cn,0,0},
{0x10B39,lexy::code_point::Po,0,0},
{0x10B40,lexy::code_point::Lo,100,0},
{0x10B56,lexy::code_point::Cn,0,0},
{0x10B58,lexy::code_point::No,0,0},
{0x10B60,lexy::code_point::Lo,100,0},
{0x10B73,lexy::code_point::Cn,0,0},
{0x10B78,lexy::code_point::No,0,0},
{0x10B80,lexy::code_point::Lo,100,0},
{0x10B92,lexy::code_point::Cn,0,0},
{0x10B99,lexy::code_point::Po,0,0},
{0x10B9D,lexy::code_point::Cn,0,0},
{0x10BA9,lexy::code_point::No,0,0},
{0x10BB0,lexy::code_point::Cn,0,0},
{0x10C00,lexy::code_point::Lo,100,0},
{0x10C49,lexy::code_point::Cn,0,0},
{0x10C80,lexy::code_point::Lu,108,64},
{0x10CB3,lexy::code_point::Cn,0,0},
{0x10CC0,lexy::code_point::Ll,116,0},
{0x10CF3,lexy::code_point::Cn,0,0},
{0x10CFA,lexy::code_point::No,0,0},
{0x10D00,lexy::code_point::Lo,100,0},
{0x10D24,lexy::code_point::Mn,68,0},
{0x10D28,lexy::code_point::Cn,0,0},
{0x10D30,lexy::code_point::Nd,64,0},
{0x10D3A,lexy::code_point::Cn,0,0},
{0x10E60,lexy::code_point::No,0,0},
{0x10E7F,lexy::code_point::Cn,0,0},
{0x10E80,lexy::code_point::Lo,100,0},
{0x10EAA,lexy::code_point::Cn,0,0},
{0x10EAB,lexy::code_point::Mn,68,0},
{0x10EAD,lexy::code_point::Pd,0,0},
{0x10EAE,lexy::code_point::Cn,0,0},
{0x10EB0,lexy::code_point::Lo,100,0},
{0x10EB2,lexy::code_point::Cn,0,0},
{0x10EFD,lexy::code_point::Mn,64,0},
{0x10F00,lexy::code_point::Lo,100,0},
{0x10F1D,lexy::code_point::No,0,0},
{0x10F27,lexy::code_point::Lo,100,0},
{0x10F28,lexy::code_point::Cn,0,0},
{0x10F30,lexy::code_point::Lo,100,0},
{0x10F46,lexy::code_point::Mn,64,0},
{0x10F51,lexy::code_point::No,0,0},
{0x10F55,lexy::code_point::Po,0,0},
{0x10F5A,lexy::code_point::Cn,0,0},
{0x10F70,lexy::code_point::Lo,100,0},
{0x10F82,lexy::code_point::Mn,64,0},
{0x10F86,lexy::code_point::Po,0,0},
{0x10F8A,lexy::code_point::Cn,0,0},
{0x10FB0,lexy::code_point::Lo,100,0},
{0x10FC5,lexy::code_point::No,0,0},
{0x10FCC,lexy::code_point::Cn,0,0},
{0x10FE0,lexy::code_point::Lo,100,0},
{0x10FF7,lexy::code_point::Cn,0,0},
{0x11000,lexy::code_point::Mc,68,0},
{0x11001,lexy::code_point::Mn,68,0},
{0x11002,lexy::code_point::Mc,68,0},
{0x11003,lexy::code_point::Lo,100,0},
{0x11038,lexy::code_point::Mn,68,0},
{0x11046,lexy::code_point::Mn,64,0},
{0x11047,lexy::code_point::Po,0,0},
{0x1104E,lexy::code_point::Cn,0,0},
{0x11052,lexy::code_point::No,0,0},
{0x11066,lexy::code_point::Nd,64,0},
{0x11070,lexy::code_point::Mn,64,0},
{0x11071,lexy::code_point::Lo,100,0},
{0x11073,lexy::code_point::Mn,68,0},
{0x11075,lexy::code_point::Lo,100,0},
{0x11076,lexy::code_point::Cn,0,0},
{0x1107F,lexy::code_point::Mn,64,0},
{0x11080,lexy::code_point::Mn,68,0},
{0x11082,lexy::code_point::Mc,68,0},
{0x11083,lexy::code_point::Lo,100,0},
{0x110B0,lexy::code_point::Mc,68,0},
{0x110B3,lexy::code_point::Mn,68,0},
{0x110B7,lexy::code_point::Mc,68,0},
{0x110B9,lexy::code_point::Mn,64,0},
{0x110BB,lexy::code_point::Po,0,0},
{0x110BD,lexy::code_point::Cf,0,0},
{0x110BE,lexy::code_point::Po,0,0},
{0x110C2,lexy::code_point::Mn,68,0},
{0x110C3,lexy::code_point::Cn,0,0},
{0x110CD,lexy::code_point::Cf,0,0},
{0x110CE,lexy::code_point::Cn,0,0},
{0x110D0,lexy::code_point::Lo,100,0},
{0x110E9,lexy::code_point::Cn,0,0},
{0x110F0,lexy::code_point::Nd,64,0},
{0x110FA,lexy::code_point::Cn,0,0},
{0x11100,lexy::code_point::Mn,68,0},
{0x11103,lexy::code_point::Lo,100,0},
{0x11127,lexy::code_point::Mn,68,0},
{0x1112C,lexy::code_point::Mc,68,0},
{0x1112D,lexy::code_point::Mn,68,0},
{0x11133,lexy::code_point::Mn,64,0},
{0x11135,lexy::code_point::Cn,0,0},
{0x11136,lexy::code_point::Nd,64,0},
{0x11140,lexy::code_point::Po,0,0},
{0x11144,lexy::code_point::Lo,100,0},
{0x11145,lexy::code_point::Mc,68,0},
{0x11147,lexy::code_point::Lo,100,0},
{0x11148,lexy::code_point::Cn,0,0},
{0x11150,lexy::code_point::Lo,100,0},
{0x11173,lexy::code_point::Mn,64,0},
{0x11174,lexy::code_point::Po,0,0},
{0x11176,lexy::code_point::Lo,100,0},
{0x11177,lexy::code_point::Cn,0,0},
{0x11180,lexy::code_point::Mn,68,0},
{0x11182,lexy::code_point::Mc,68,0},
{0x11183,lexy::code_point::Lo,100,0},
{0x111B3,lexy::code_point::Mc,68,0},
{0x111B6,lexy::code_point::Mn,68,0},
{0x111BF,lexy::code_point::Mc,68,0},
{0x111C0,lexy::code_point::Mc,64,0},
{0x111C1,lexy::code_point::Lo,100,0},
{0x111C5,lexy::code_point::Po,0,0},
{0x111C9,lexy::code_point::Mn,64,0},
{0x111CD,lexy::code_point::Po,0,0},
{0x111CE,lexy::code_point::Mc,68,0},
{0x111CF,lexy::code_point::Mn,68,0},
{0x111D0,lexy::code_point::Nd,64,0},
{0x111DA,lexy::code_point::Lo,100,0},
{0x111DB,lexy::code_point::Po,0,0},
{0x111DC,lexy::code_point::Lo,100,0},
{0x111DD,lexy::code_point::Po,0,0},
{0x111E0,lexy::code_point::Cn,0,0},
{0x111E1,lexy::code_point::No,0,0},
{0x111F5,lexy::code_point::Cn,0,0},
{0x11200,lexy::code_point::Lo,100,0},
{0x11212,lexy::code_point::Cn,0,0},
{0x11213,lexy::code_point::Lo,100,0},
{0x1122C,lexy::code_point::Mc,68,0},
{0x1122F,lexy::code_point::Mn,68,0},
{0x11232,lexy::code_point::Mc,68,0},
{0x11234,lexy::code_point::Mn,68,0},
{0x11235,lexy::code_point::Mc,64,0},
{0x11236,lexy::code_point::Mn,64,0},
{0x11237,lexy::code_point::Mn,68,0},
{0x11238,lexy::code_point::Po,0,0},
{0x1123E,lexy::code_point::Mn,68,0},
{0x1123F,lexy::code_point::Lo,100,0},
{0x11241,lexy::code_point::Mn,68,0},
{0x11242,lexy::code_point::Cn,0,0},
{0x11280,lexy::code_point::Lo,100,0},
{0x11287,lexy::code_point::Cn,0,0},
{0x11288,lexy::code_point::Lo,100,0},
{0x11289,lexy::code_point::Cn,0,0},
{0x1128A,lexy::code_point::Lo,100,0},
{0x1128E,lexy::code_point::Cn,0,0},
{0x1128F,lexy::code_point::Lo,100,0},
{0x1129E,lexy::code_point::Cn,0,0},
{0x1129F,lexy::code_point::Lo,100,0},
{0x112A9,lexy::code_point::Po,0,0},
{0x112AA,lexy::code_point::Cn,0,0},
{0x112B0,lexy::code_point::Lo,100,0},
{0x112DF,lexy::code_point::Mn,68,0},
{0x112E0,lexy::code_point::Mc,68,0},
{0x112E3,lexy::code_point::Mn,68,0},
{0x112E9,lexy::code_point::Mn,64,0},
{0x112EB,lexy::code_point::Cn,0,0},
{0x112F0,lexy::code_point::Nd,64,0},
{0x112FA,lexy::code_point::Cn,0,0},
{0x11300,lexy::code_point::Mn,68,0},
{0x11302,lexy::code_point::Mc,68,0},
{0x11304,lexy::code_point::Cn,0,0},
{0x11305,lexy::code_point::Lo,100,0},
{0x1130D,lexy::code_point::Cn,0,0},
{0x1130F,lexy::code_point::Lo,100,0},
{0x11311,lexy::code_point::Cn,0,0},
{0x11313,lexy::code_point::Lo,100,0},
{0x11329,lexy::code_point::Cn,0,0},
{0x1132A,lexy::code_point::Lo,100,0},
{0x11331,lexy::code_point::Cn,0,0},
{0x11332,lexy::code_point::Lo,100,0},
{0x11334,lexy::code_point::Cn,0,0},
{0x11335,lexy::code_point::Lo,100,0},
{0x1133A,lexy::code_point::Cn,0,0},
{0x1133B,lexy::code_point::Mn,64,0},
{0x1133D,lexy::code_point::Lo,100,0},
{0x1133E,lexy::code_point::Mc,68,0},
{0x11340,lexy::code_point::Mn,68,0},
{0x11341,lexy::code_point::Mc,68,0},
{0x11345,lexy::code_point::Cn,0,0},
{0x11347,lexy::code_point::Mc,68,0},
{0x11349,lexy::code_point::Cn,0,0},
{0x1134B,lexy::code_point::Mc,68,0},
{0x1134D,lexy::code_point::Mc,64,0},
{0x1134E,lexy::code_point::Cn,0,0},
{0x11350,lexy::code_point::Lo,100,0},
{0x11351,lexy::code_point::Cn,0,0},
{0x11357,lexy::code_point::Mc,68,0},
{0x11358,lexy::code_point::Cn,0,0},
{0x1135D,lexy::code_point::Lo,100,0},
{0x11362,lexy::code_point::Mc,68,0},
{0x11364,lexy::code_point::Cn,0,0},
{0x11366,lexy::code_point::Mn,64,0},
{0x1136D,lexy::code_point::Cn,0,0},
{0x11370,lexy::code_point::Mn,64,0},
{0x11375,lexy::code_point::Cn,0,0},
{0x11400,lexy::code_point::Lo,100,0},
{0x11435,lexy::code_point::Mc,68,0},
{0x11438,lexy::code_point::Mn,68,0},
{0x11440,lexy::code_point::Mc,68,0},
{0x11442,lexy::code_point::Mn,64,0},
{0x11443,lexy::code_point::Mn,68,0},
{0x11445,lexy::code_point::Mc,68,0},
{0x11446,lexy::code_point::Mn,64,0},
{0x11447,lexy::code_point::Lo,100,0},
{0x1144B,lexy::code_point::Po,0,0},
{0x11450,lexy::code_point::Nd,64,0},
{0x1145A,lexy::code_point::Po,0,0},
{0x1145C,lexy::code_point::Cn,0,0},
{0x1145D,lexy::code_point::Po,0,0},
{0x1145E,lexy::code_point::Mn,64,0},
{0x1145F,lexy::code_point::Lo,100,0},
{0x11462,lexy::code_point::Cn,0,0},
{0x11480,lexy::code_point::Lo,100,0},
{0x114B0,lexy::code_point::Mc,68,0},
{0x114B3,lexy::code_point::Mn,68,0},
{0x114B9,lexy::code_point::Mc,68,0},
{0x114BA,lexy::code_point::Mn,68,0},
{0x114BB,lexy::code_point::Mc,68,0},
{0x114BF,lexy::code_point::Mn,68,0},
{0x114C1,lexy::code_point::Mc,68,0},
{0x114C2,lexy::code_point::Mn,64,0},
{0x114C4,lexy::code_point::Lo,100,0},
{0x114C6,lexy::code_point::Po,0,0},
{0x114C7,lexy::code_point::Lo,100,0},
{0x114C8,lexy::code_point::Cn,0,0},
{0x114D0,lexy::code_point::Nd,64,0},
{0x114DA,lexy::code_point::Cn,0,0},
{0x11580,lexy::code_point::Lo,100,0},
{0x115AF,lexy::code_point::Mc,68,0},
{0x115B2,lexy::code_point::Mn,68,0},
{0x115B6,lexy::code_point::Cn,0,0},
{0x115B8,lexy::code_point::Mc,68,0},
{0x115BC,lexy::code_point::Mn,68,0},
{0x115BE,lexy::code_point::Mc,68,0},
{0x115BF,lexy::code_point::Mn,64,0},
{0x115C1,lexy::code_point::Po,0,0},
{0x115D8,lexy::code_point::Lo,100,0},
{0x115DC,lexy::code_point::Mn,68,0},
{0x115DE,lexy::code_point::Cn,0,0},
{0x11600,lexy::code_point::Lo,100,0},
{0x11630,lexy::code_point::Mc,68,0},
{0x11633,lexy::code_point::Mn,68,0},
{0x1163B,lexy::code_point::Mc,68,0},
{0x1163D,lexy::code_point::Mn,68,0},
{0x1163E,lexy::code_point::Mc,68,0},
{0x1163F,lexy::code_point::Mn,64,0},
{0x11640,lexy::code_point::Mn,68,0},
{0x11641,lexy::code_point::Po,0,0},
{0x11644,lexy::code_point::Lo,100,0},
{0x11645,lexy::code_point::Cn,0,0},
{0x11650,lexy::code_point::Nd,64,0},
{0x1165A,lexy::code_point::Cn,0,0},
{0x11660,lexy::code_point::Po,0,0},
{0x1166D,lexy::code_point::Cn,0,0},
{0x11680,lexy::code_point::Lo,100,0},
{0x116AB,lexy::code_point::Mn,68,0},
{0x116AC,lexy::code_point::Mc,68,0},
{0x116AD,lexy::code_point::Mn,68,0},
{0x116AE,lexy::code_point::Mc,68,0},
{0x116B0,lexy::code_point::Mn,68,0},
{0x116B6,lexy::code_point::Mc,64,0},
{0x116B7,lexy::code_point::Mn,64,0},
{0x116B8,lexy::code_point::Lo,100,0},
{0x116B9,lexy::code_point::Po,0,0},
{0x116BA,lexy::code_point::Cn,0,0},
{0x116C0,lexy::code_point::Nd,64,0},
{0x116CA,lexy::code_point::Cn,0,0},
{0x11700,lexy::code_point::Lo,100,0},
{0x1171B,lexy::code_point::Cn,0,0},
{0x1171D,lexy::code_point::Mn,68,0},
{0x11720,lexy::code_point::Mc,68,0},
{0x11722,lexy::code_point::Mn,68,0},
{0x11726,lexy::code_point::Mc,68,0},
{0x11727,lexy::code_point::Mn,68,0},
{0x1172B,lexy::code_point::Mn,64,0},
{0x1172C,lexy::code_point::Cn,0,0},
{0x11730,lexy::code_point::Nd,64,0},
{0x1173A,lexy::code_point::No,0,0},
{0x1173C,lexy::code_point::Po,0,0},
{0x1173F,lexy::code_point::So,0,0},
{0x11740,lexy::code_point::Lo,100,0},
{0x11747,lexy::code_point::Cn,0,0},
{0x11800,lexy::code_point::Lo,100,0},
{0x1182C,lexy::code_point::Mc,68,0},
{0x1182F,lexy::code_point::Mn,68,0},
{0x11838,lexy::code_point::Mc,68,0},
{0x11839,lexy::code_point::Mn,64,0},
{0x1183B,lexy::code_point::Po,0,0},
{0x1183C,lexy::code_point::Cn,0,0},
{0x118A0,lexy::code_point::Lu,108,32},
{0x118C0,lexy::code_point::Ll,116,0},
{0x118E0,lexy::code_point::Nd,64,0},
{0x118EA,lexy::code_point::No,0,0},
{0x118F3,lexy::code_point::Cn,0,0},
{0x118FF,lexy::code_point::Lo,100,0},
{0x11907,lexy::code_point::Cn,0,0},
{0x11909,lexy::code_point::Lo,100,0},
{0x1190A,lexy::code_point::Cn,0,0},
{0x1190C,lexy::code_point::Lo,100,0},
{0x11914,lexy::code_point::Cn,0,0},
{0x11915,lexy::code_point::Lo,100,0},
{0x11917,lexy::code_point::Cn,0,0},
{0x11918,lexy::code_point::Lo,100,0},
{0x11930,lexy::code_point::Mc,68,0},
{0x11936,lexy::code_point::Cn,0,0},
{0x11937,lexy::code_point::Mc,68,0},
{0x11939,lexy::code_point::Cn,0,0},
{0x1193B,lexy::code_point::Mn,68,0},
{0x1193D,lexy::code_point::Mc,64,0},
{0x1193E,lexy::code_point::Mn,64,0},
{0x1193F,lexy::code_point::Lo,100,0},
{0x11940,lexy::code_point::Mc,68,0},
{0x11941,lexy::code_point::Lo,100,0},
{0x11942,lexy::code_point::Mc,68,0},
{0x11943,lexy::code_point::Mn,64,0},
{0x11944,lexy::code_point::Po,0,0},
{0x11947,lexy::code_point::Cn,0,0},
{0x11950,lexy::code_point::Nd,64,0},
{0x1195A,lexy::code_point::Cn,0,0},
{0x119A0,lexy::code_point::Lo,100,0},
{0x119A8,lexy::code_point::Cn,0,0},
{0x119AA,lexy::code_point::Lo,100,0},
{0x119D1,lexy::code_point::Mc,68,0},
{0x119D4,lexy::code_point::Mn,68,0},
{0x119D8,lexy::code_point::Cn,0,0},
{0x119DA,lexy::code_point::Mn,68,0},
{0x119DC,lexy::code_point::Mc,68,0},
{0x119E0,lexy::code_point::Mn,64,0},
{0x119E1,lexy::code_point::Lo,100,0},
{0x119E2,lexy::code_point::Po,0,0},
{0x119E3,lexy::code_point::Lo,100,0},
{0x119E4,lexy::code_point::Mc,68,0},
{0x119E5,lexy::code_point::Cn,0,0},
{0x11A00,lexy::code_point::Lo,100,0},
{0x11A01,lexy::code_point::Mn,68,0},
{0x11A0B,lexy::code_point::Lo,100,0},
{0x11A33,lexy::code_point::Mn,64,0},
{0x11A35,lexy::code_point::Mn,68,0},
{0x11A39,lexy::code_point::Mc,68,0},
{0x11A3A,lexy::code_point::Lo,100,0},
{0x11A3B,lexy::code_point::Mn,68,0},
{0x11A3F,lexy::code_point::Po,0,0},
{0x11A47,lexy::code_point::Mn,64,0},
{0x11A48,lexy::code_point::Cn,0,0},
{0x11A50,lexy::code_point::Lo,100,0},
{0x11A51,lexy::code_point::Mn,68,0},
{0x11A57,lexy::code_point::Mc,68,0},
{0x11A59,lexy::code_point::Mn,68,0},
{0x11A5C,lexy::code_point::Lo,100,0},
{0x11A8A,lexy::code_point::Mn,68,0},
{0x11A97,lexy::code_point::Mc,68,0},
{0x11A98,lexy::code_point::Mn,64,0},
{0x11A9A,lexy::code_point::Po,0,0},
{0x11A9D,lexy::code_point::Lo,100,0},
{0x11A9E,lexy::code_point::Po,0,0},
{0x11AA3,lexy::code_point::Cn,0,0},
{0x11AB0,lexy::code_point::Lo,100,0},
{0x11AF9,lexy::code_point::Cn,0,0},
{0x11B00,lexy::code_point::Po,0,0},
{0x11B0A,lexy::code_point::Cn,0,0},
{0x11C00,lexy::code_point::Lo,100,0},
{0x11C09,lexy::code_point::Cn,0,0},
{0x11C0A,lexy::code_point::Lo,100,0},
{0x11C2F,lexy::code_point::Mc,68,0},
{0x11C30,lexy::code_point::Mn,68,0},
{0x11C37,lexy::code_point::Cn,0,0},
{0x11C38,lexy::code_point::Mn,68,0},
{0x11C3E,lexy::code_point::Mc,68,0},
{0x11C3F,lexy::code_point::Mn,64,0},
{0x11C40,lexy::code_point::Lo,100,0},
{0x11C41,lexy::code_point::Po,0,0},
{0x11C46,lexy::code_point::Cn,0,0},
{0x11C50,lexy::code_point::Nd,64,0},
{0x11C5A,lexy::code_point::No,0,0},
{0x11C6D,lexy::code_point::Cn,0,0},
{0x11C70,lexy::code_point::Po,0,0},
{0x11C72,lexy::code_point::Lo,100,0},
{0x11C90,lexy::code_point::Cn,0,0},
{0x11C92,lexy::code_point::Mn,68,0},
{0x11CA8,lexy::code_point::Cn,0,0},
{0x11CA9,lexy::code_point::Mc,68,0},
{0x11CAA,lexy::code_point::Mn,68,0},
{0x11CB1,lexy::code_point::Mc,68,0},
{0x11CB2,lexy::code_point::Mn,68,0},
{0x11CB4,lexy::code_point::Mc,68,0},
{0x11CB5,lexy::code_point::Mn,68,0},
{0x11CB7,lexy::code_point::Cn,0,0},
{0x11D00,lexy::code_point::Lo,100,0},
{0x11D07,lexy::code_point::Cn,0,0},
{0x11D08,lexy::code_point::Lo,100,0},
{0x11D0A,lexy::code_point::Cn,0,0},
{0x11D0B,lexy::code_point::Lo,100,0},
{0x11D31,lexy::code_point::Mn,68,0},
{0x11D37,lexy::code_point::Cn,0,0},
{0x11D3A,lexy::code_point::Mn,68,0},
{0x11D3B,lexy::code_point::Cn,0,0},
{0x11D3C,lexy::code_point::Mn,68,0},
{0x11D3E,lexy::code_point::Cn,0,0},
{0x11D3F,lexy::code_point::Mn,68,0},
{0x11D42,lexy::code_point::Mn,64,0},
{0x11D43,lexy::code_point::Mn,68,0},
{0x11D44,lexy::code_point::Mn,64,0},
{0x11D46,lexy::code_point::Lo,100,0},
{0x11D47,lexy::code_point::Mn,68,0},
{0x11D48,lexy::code_point::Cn,0,0},
{0x11D50,lexy::code_point::Nd,64,0},
{0x11D5A,lexy::code_point::Cn,0,0},
{0x11D60,lexy::code_point::Lo,100,0},
{0x11D66,lexy::code_point::Cn,0,0},
{0x11D67,lexy::code_point::Lo,100,0},
{0x11D69,lexy::code_point::Cn,0,0},
{0x11D6A,lexy::code_point::Lo,100,0},
{0x11D8A,lexy::code_point::Mc,68,0},
{0x11D8F,lexy::code_point::Cn,0,0},
{0x11D90,lexy::code_point::Mn,68,0},
{0x11D92,lexy::code_point::Cn,0,0},
{0x11D93,lexy::code_point::Mc,68,0},
{0x11D95,lexy::code_point::Mn,68,0},
{0x11D96,lexy::code_point::Mc,68,0},
{0x11D97,lexy::code_point::Mn,64,0},
{0x11D98,lexy::code_point::Lo,100,0},
{0x11D99,lexy::code_point::Cn,0,0},
{0x11DA0,lexy::code_point::Nd,64,0},
{0x11DAA,lexy::code_point::Cn,0,0},
{0x11EE0,lexy::code_point::Lo,100,0},
{0x11EF3,lexy::code_point::Mn,68,0},
{0x11EF5,lexy::code_point::Mc,68,0},
{0x11EF7,lexy::code_point::Po,0,0},
{0x11EF9,lexy::code_point::Cn,0,0},
{0x11F00,lexy::code_point::Mn,68,0},
{0x11F02,lexy::code_point::Lo,100,0},
{0x11F03,lexy::code_point::Mc,68,0},
{0x11F04,lexy::code_point::Lo,100,0},
{0x11F11,lexy::code_point::Cn,0,0},
{0x11F12,lexy::code_point::Lo,100,0},
{0x11F34,lexy::code_point::Mc,68,0},
{0x11F36,lexy::code_point::Mn,68,0},
{0x11F3B,lexy::code_point::Cn,0,0},
{0x11F3E,lexy::code_point::Mc,68,0},
{0x11F40,lexy::code_point::Mn,68,0},
{0x11F41,lexy::code_point::Mc,64,0},
{0x11F42,lexy::code_point::Mn,64,0},
{0x11F43,lexy::code_point::Po,0,0},
{0x11F50,lexy::code_point::Nd,64,0},
{0x11F5A,lexy::code_point::Cn,0,0},
{0x11FB0,lexy::code_point::Lo,100,0},
{0x11FB1,lexy::code_point::Cn,0,0},
{0x11FC0,lexy::code_point::No,0,0},
{0x11FD5,lexy::code_point::So,0,0},
{0x11FDD,lexy::code_point::Sc,0,0},
{0x11FE1,lexy::code_point::So,0,0},
{0x11FF2,lexy::code_point::Cn,0,0},
{0x11FFF,lexy::code_point::Po,0,0},
{0x12000,lexy::code_point::Lo,100,0},
{0x1239A,lexy::code_point::Cn,0,0},
{0x12400,lexy::code_point::Nl,100,0},
{0x1246F,lexy::code_point::Cn,0,0},
{0x12470,lexy::code_point::Po,0,0},
{0x12475,lexy::code_point::Cn,0,0},
{0x12480,lexy::code_point::Lo,100,0},
{0x12544,lexy::code_point::Cn,0,0},
{0x12F90,lexy::code_point::Lo,100,0},
{0x12FF1,lexy::code_point::Po,0,0},
{0x12FF3,lexy::code_point::Cn,0,0},
{0x13000,lexy::code_point::Lo,100,0},
{0x13430,lexy::code_point::Cf,0,0},
{0x13440,lexy::code_point::Mn,64,0},
{0x13441,lexy::code_point::Lo,100,0},
{0x13447,lexy::code_point::Mn,64,0},
{0x13456,lexy::code_point::Cn,0,0},
{0x14400,lexy::code_point::Lo,100,0},
{0x14647,lexy::code_point::Cn,0,0},
{0x16800,lexy::code_point::Lo,100,0},
{0x16A39,lexy::code_point::Cn,0,0},
{0x16A40,lexy::code_point::Lo,100,0},
{0x16A5F,lexy::code_point::Cn,0,0},
{0x16A60,lexy::code_point::Nd,64,0},
{0x16A6A,lexy::code_point::Cn,0,0},
{0x16A6E,lexy::code_point::Po,0,0},
{0x16A70,lexy::code_point::Lo,100,0},
{0x16ABF,lexy::code_point::Cn,0,0},
{0x16AC0,lexy::code_point::Nd,64,0},
{0x16ACA,lexy::code_point::Cn,0,0},
{0x16AD0,lexy::code_point::Lo,100,0},
{0x16AEE,lexy::code_point::Cn,0,0},
{0x16AF0,lexy::code_point::Mn,64,0},
{0x16AF5,lexy::code_point::Po,0,0},
{0x16AF6,lexy::code_point::Cn,0,0},
{0x16B00,lexy::code_point::Lo,100,0},
{0x16B30,lexy::code_point::Mn,64,0},
{0x16B37,lexy::code_point::Po,0,0},
{0x16B3C,lexy::code_point::So,0,0},
{0x16B40,lexy::code_point::Lm,100,0},
{0x16B44,lexy::code_point::Po,0,0},
{0x16B45,lexy::code_point::So,0,0},
{0x16B46,lexy::code_point::Cn,0,0},
{0x16B50,lexy::code_point::Nd,64,0},
{0x16B5A,lexy::code_point::Cn,0,0},
{0x16B5B,lexy::code_point::No,0,0},
{0x16B62,lexy::code_point::Cn,0,0},
{0x16B63,lexy::code_point::Lo,100,0},
{0x16B78,lexy::code_point::Cn,0,0},
{0x16B7D,lexy::code_point::Lo,100,0},
{0x16B90,lexy::code_point::Cn,0,0},
{0x16E40,lexy::code_point::Lu,108,32},
{0x16E60,lexy::code_point::Ll,116,0},
{0x16E80,lexy::code_point::No,0,0},
{0x16E97,lexy::code_point::Po,0,0},
{0x16E9B,lexy::code_point::Cn,0,0},
{0x16F00,lexy::code_point::Lo,100,0},
{0x16F4B,lexy::code_point::Cn,0,0},
{0x16F4F,lexy::code_point::Mn,68,0},
{0x16F50,lexy::code_point::Lo,100,0},
{0x16F51,lexy::code_point::Mc,68,0},
{0x16F88,lexy::code_point::Cn,0,0},
{0x16F8F,lexy::code_point::Mn,68,0},
{0x16F93,lexy::code_point::Lm,100,0},
{0x16FA0,lexy::code_point::Cn,0,0},
{0x16FE0,lexy::code_point::Lm,100,0},
{0x16FE2,lexy::code_point::Po,0,0},
{0x16FE3,lexy::code_point::Lm,100,0},
{0x16FE4,lexy::code_point::Mn,64,0},
{0x16FE5,lexy::code_point::Cn,0,0},
{0x16FF0,lexy::code_point::Mc,68,0},
{0x16FF2,lexy::code_point::Cn,0,0},
{0x17000,lexy::code_point::Lo,100,0},
{0x187F8,lexy::code_point::Cn,0,0},
{0x18800,lexy::code_point::Lo,100,0},
{0x18CD6,lexy::code_point::Cn,0,0},
{0x18D00,lexy::code_point::Lo,100,0},
{0x18D09,lexy::code_point::Cn,0,0},
{0x1AFF0,lexy::code_point::Lm,100,0},
{0x1AFF4,lexy::code_point::Cn,0,0},
{0x1AFF5,lexy::code_point::Lm,100,0},
{0x1AFFC,lexy::code_point::Cn,0,0},
{0x1AFFD,lexy::code_point::Lm,100,0},
{0x1AFFF,lexy::code_point::Cn,0,0},
{0x1B000,lexy::code_point::Lo,100,0},
{0x1B123,lexy::code_point::Cn,0,0},
{0x1B132,lexy::code_point::Lo,100,0},
{0x1B133,lexy::code_point::Cn,0,0},
{0x1B150,lexy::code_point::Lo,100,0},
{0x1B153,lexy::code_point::Cn,0,0},
{0x1B155,lexy::code_point::Lo,100,0},
{0x1B156,lexy::code_point::Cn,0,0},
{0x1B164,lexy::code_point::Lo,100,0},
{0x1B168,lexy::code_point::Cn,0,0},
{0x1B170,lexy::code_point::Lo,100,0},
{0x1B2FC,lexy::code_point::Cn,0,0},
{0x1BC00,lexy::code_point::Lo,100,0},
{0x1BC6B,lexy::code_point::Cn,0,0},
{0x1BC70,lexy::code_point::Lo,100,0},
{0x1BC7D,lexy::code_point::Cn,0,0},
{0x1BC80,lexy::code_point::Lo,100,0},
{0x1BC89,lexy::code_point::Cn,0,0},
{0x1BC90,lexy::code_point::Lo,100,0},
{0x1BC9A,lexy::code_point::Cn,0,0},
{0x1BC9C,lexy::code_point::So,0,0},
{0x1BC9D,lexy::code_point::Mn,64,0},
{0x1BC9E,lexy::code_point::Mn,68,0},
{0x1BC9F,lexy::code_point::Po,0,0},
{0x1BCA0,lexy::code_point::Cf,0,0},
{0x1BCA4,lexy::code_point::Cn,0,0},
{0x1CF00,lexy::code_point::Mn,64,0},
{0x1CF2E,lexy::code_point::Cn,0,0},
{0x1CF30,lexy::code_point::Mn,64,0},
{0x1CF47,lexy::code_point::Cn,0,0},
{0x1CF50,lexy::code_point::So,0,0},
{0x1CFC4,lexy::code_point::Cn,0,0},
{0x1D000,lexy::code_point::So,0,0},
{0x1D0F6,lexy::code_point::Cn,0,0},
{0x1D100,lexy::code_point::So,0,0},
{0x1D127,lexy::code_point::Cn,0,0},
{0x1D129,lexy::code_point::So,0,0},
{0x1D165,lexy::code_point::Mc,64,0},
{0x1D167,lexy::code_point::Mn,64,0},
{0x1D16A,lexy::code_point::So,0,0},
{0x1D16D,lexy::code_point::Mc,64,0},
{0x1D173,lexy::code_point::Cf,0,0},
{0x1D17B,lexy::code_point::Mn,64,0},
{0x1D183,lexy::code_point::So,0,0},
{0x1D185,lexy::code_point::Mn,64,0},
{0x1D18C,lexy::code_point::So,0,0},
{0x1D1AA,lexy::code_point::Mn,64,0},
{0x1D1AE,lexy::code_point::So,0,0},
{0x1D1EB,lexy::code_point::Cn,0,0},
{0x1D200,lexy::code_point::So,0,0},
{0x1D242,lexy::code_point::Mn,64,0},
{0x1D245,lexy::code_point::So,0,0},
{0x1D246,lexy::code_point::Cn,0,0},
{0x1D2C0,lexy::code_point::No,0,0},
{0x1D2D4,lexy::code_point::Cn,0,0},
{0x1D2E0,lexy::code_point::No,0,0},
{0x1D2F4,lexy::code_point::Cn,0,0},
{0x1D300,lexy::code_point::So,0,0},
{0x1D357,lexy::code_point::Cn,0,0},
{0x1D360,lexy::code_point::No,0,0},
{0x1D379,lexy::code_point::Cn,0,0},
{0x1D400,lexy::code_point::Lu,108,0},
{0x1D41A,lexy::code_point::Ll,116,0},
{0x1D434,lexy::code_point::Lu,108,0},
{0x1D44E,lexy::code_point::Ll,116,0},
{0x1D455,lexy::code_point::Cn,0,0},
{0x1D456,lexy::code_point::Ll,116,0},
{0x1D468,lexy::code_point::Lu,108,0},
{0x1D482,lexy::code_point::Ll,116,0},
{0x1D49C,lexy::code_point::Lu,108,0},
{0x1D49D,lexy::code_point::Cn,0,0},
{0x1D49E,lexy::code_point::Lu,108,0},
{0x1D4A0,lexy::code_point::Cn,0,0},
{0x1D4A2,lexy::code_point::Lu,108,0},
{0x1D4A3,lexy::code_point::Cn,0,0},
{0x1D4A5,lexy::code_point::Lu,108,0},
{0x1D4A7,lexy::code_point::Cn,0,0},
{0x1D4A9,lexy::code_point::Lu,108,0},
{0x1D4AD,lexy::code_point::Cn,0,0},
{0x1D4AE,lexy::code_point::Lu,108,0},
{0x1D4B6,lexy::code_point::Ll,116,0},
{0x1D4BA,lexy::code_point::Cn,0,0},
{0x1D4BB,lexy::code_point::Ll,116,0},
{0x1D4BC,lexy::code_point::Cn,0,0},
{0x1D4BD,lexy::code_point::Ll,116,0},
{0x1D4C4,lexy::code_point::Cn,0,0},
{0x1D4C5,lexy::code_point::Ll,116,0},
{0x1D4D0,lexy::code_point::Lu,108,0},
{0x1D4EA,lexy::code_point::Ll,116,0},
{0x1D504,lexy::code_point::Lu,108,0},
{0x1D506,lexy::code_point::Cn,0,0},
{0x1D507,lexy::code_point::Lu,108,0},
{0x1D50B,lexy::code_point::Cn,0,0},
{0x1D50D,lexy::code_point::Lu,108,0},
{0x1D515,lexy::code_point::Cn,0,0},
{0x1D516,lexy::code_point::Lu,108,0},
{0x1D51D,lexy::code_point::Cn,0,0},
{0x1D51E,lexy::code_point::Ll,116,0},
{0x1D538,lexy::code_point::Lu,108,0},
{0x1D53A,lexy::code_point::Cn,0,0},
{0x1D53B,lexy::code_point::Lu,108,0},
{0x1D53F,lexy::code_point::Cn,0,0},
{0x1D540,lexy::code_point::Lu,108,0},
{0x1D545,lexy::code_point::Cn,0,0},
{0x1D546,lexy::code_point::Lu,108,0},
{0x1D547,lexy::code_point::Cn,0,0},
{0x1D54A,lexy::code_point::Lu,108,0},
{0x1D551,lexy::code_point::Cn,0,0},
{0x1D552,lexy::code_point::Ll,116,0},
{0x1D56C,lexy::code_point::Lu,108,0},
{0x1D586,lexy::code_point::Ll,116,0},
{0x1D5A0,lexy::code_point::Lu,108,0},
{0x1D5BA,lexy::code_point::Ll,116,0},
{0x1D5D4,lexy::code_point::Lu,108,0},
{0x1D5EE,lexy::code_point::Ll,116,0},
{0x1D608,lexy::code_point::Lu,108,0},
{0x1D622,lexy::code_point::Ll,116,0},
{0x1D63C,lexy::code_point::Lu,108,0},
{0x1D656,lexy::code_point::Ll,116,0},
{0x1D670,lexy::code_point::Lu,108,0},
{0x1D68A,lexy::code_point::Ll,116,0},
{0x1D6A6,lexy::code_point::Cn,0,0},
{0x1D6A8,lexy::code_point::Lu,108,0},
{0x1D6C1,lexy::code_point::Sm,0,0},
{0x1D6C2,lexy::code_point::Ll,116,0},
{0x1D6DB,lexy::code_point::Sm,0,0},
{0x1D6DC,lexy::code_point::Ll,116,0},
{0x1D6E2,lexy::code_point::Lu,108,0},
{0x1D6FB,lexy::code_point::Sm,0,0},
{0x1D6FC,lexy::code_point::Ll,116,0},
{0x1D715,lexy::code_point::Sm,0,0},
{0x1D716,lexy::code_point::Ll,116,0},
{0x1D71C,lexy::code_point::Lu,108,0},
{0x1D735,lexy::code_point::Sm,0,0},
{0x1D736,lexy::code_point::Ll,116,0},
{0x1D74F,lexy::code_point::Sm,0,0},
{0x1D750,lexy::code_point::Ll,116,0},
{0x1D756,lexy::code_point::Lu,108,0},
{0x1D76F,lexy::code_point::Sm,0,0},
{0x1D770,lexy::code_point::Ll,116,0},
{0x1D789,lexy::code_point::Sm,0,0},
{0x1D78A,lexy::code_point::Ll,116,0},
{0x1D790,lexy::code_point::Lu,108,0},
{0x1D7A9,lexy::code_point::Sm,0,0},
{0x1D7AA,lexy::code_point::Ll,116,0},
{0x1D7C3,lexy::code_point::Sm,0,0},
{0x1D7C4,lexy::code_point::Ll,116,0},
{0x1D7CA,lexy::code_point::Lu,108,0},
{0x1D7CB,lexy::code_point::Ll,116,0},
{0x1D7CC,lexy::code_point::Cn,0,0},
{0x1D7CE,lexy::code_point::Nd,64,0},
{0x1D800,lexy::code_point::So,0,0},
{0x1DA00,lexy::code_point::Mn,64,0},
{0x1DA37,lexy::code_point::So,0,0},
{0x1DA3B,lexy::code_point::Mn,64,0},
{0x1DA6D,lexy::code_point::So,0,0},
{0x1DA75,lexy::code_point::Mn,64,0},
{0x1DA76,lexy::code_point::So,0,0},
{0x1DA84,lexy::code_point::Mn,64,0},
{0x1DA85,lexy::code_point::So,0,0},
{0x1DA87,lexy::code_point::Po,0,0},
{0x1DA8C,lexy::code_point::Cn,0,0},
{0x1DA9B,lexy::code_point::Mn,64,0},
{0x1DAA0,lexy::code_point::Cn,0,0},
{0x1DAA1,lexy::code_point::Mn,64,0},
{0x1DAB0,lexy::code_point::Cn,0,0},
{0x1DF00,lexy::code_point::Ll,116,0},
{0x1DF0A,lexy::code_point::Lo,100,0},
{0x1DF0B,lexy::code_point::Ll,116,0},
{0x1DF1F,lexy::code_point::Cn,0,0},
{0x1DF25,lexy::code_point::Ll,116,0},
{0x1DF2B,lexy::code_point::Cn,0,0},
{0x1E000,lexy::code_point::Mn,68,0},
{0x1E007,lexy::code_point::Cn,0,0},
{0x1E008,lexy::code_point::Mn,68,0},
{0x1E019,lexy::code_point::Cn,0,0},
{0x1E01B,lexy::code_point::Mn,68,0},
{0x1E022,lexy::code_point::Cn,0,0},
{0x1E023,lexy::code_point::Mn,68,0},
{0x1E025,lexy::code_point::Cn,0,0},
{0x1E026,lexy::code_point::Mn,68,0},
{0x1E02B,lexy::code_point::Cn,0,0},
{0x1E030,lexy::code_point::Lm,116,0},
{0x1E06E,lexy::code_point::Cn,0,0},
{0x1E08F,lexy::code_point::Mn,68,0},
{0x1E090,lexy::code_point::Cn,0,0},
{0x1E100,lexy::code_point::Lo,100,0},
{0x1E12D,lexy::code_point::Cn,0,0},
{0x1E130,lexy::code_point::Mn,64,0},
{0x1E137,lexy::code_point::Lm,100,0},
{0x1E13E,lexy::code_point::Cn,0,0},
{0x1E140,lexy::code_point::Nd,64,0},
{0x1E14A,lexy::code_point::Cn,0,0},
{0x1E14E,lexy::code_point::Lo,100,0},
{0x1E14F,lexy::code_point::So,0,0},
{0x1E150,lexy::code_point::Cn,0,0},
{0x1E290,lexy::code_point::Lo,100,0},
{0x1E2AE,lexy::code_point::Mn,64,0},
{0x1E2AF,lexy::code_point::Cn,0,0},
{0x1E2C0,lexy::code_point::Lo,100,0},
{0x1E2EC,lexy::code_point::Mn,64,0},
{0x1E2F0,lexy::code_point::Nd,64,0},
{0x1E2FA,lexy::code_point::Cn,0,0},
{0x1E2FF,lexy::code_point::Sc,0,0},
{0x1E300,lexy::code_point::Cn,0,0},
{0x1E4D0,lexy::code_point::Lo,100,0},
{0x1E4EB,lexy::code_point::Lm,100,0},
{0x1E4EC,lexy::code_point::Mn,64,0},
{0x1E4F0,lexy::code_point::Nd,64,0},
{0x1E4FA,lexy::code_point::Cn,0,0},
{0x1E7E0,lexy::code_point::Lo,100,0},
{0x1E7E7,lexy::code_point::Cn,0,0},
{0x1E7E8,lexy::code_point::Lo,100,0},
{0x1E7EC,lexy::code_point::Cn,0,0},
{0x1E7ED,lexy::code_point::Lo,100,0},
{0x1E7EF,lexy::code_point::Cn,0,0},
{0x1E7F0,lexy::code_point::Lo,100,0},
{0x1E7FF,lexy::code_point::Cn,0,0},
{0x1E800,lexy::code_point::Lo,100,0},
{0x1E8C5,lexy::code_point::Cn,0,0},
{0x1E8C7,lexy::code_point::No,0,0},
{0x1E8D0,lexy::code_point::Mn,64,0},
{0x1E8D7,lexy::code_point::Cn,0,0},
{0x1E900,lexy::code_point::Lu,108,34},
{0x1E922,lexy::code_point::Ll,116,0},
{0x1E944,lexy::code_point::Mn,64,0},
{0x1E947,lexy::code_point::Mn,68,0},
{0x1E948,lexy::code_point::Mn,64,0},
{0x1E94B,lexy::code_point::Lm,100,0},
{0x1E94C,lexy::code_point::Cn,0,0},
{0x1E950,lexy::code_point::Nd,64,0},
{0x1E95A,lexy::code_point::Cn,0,0},
{0x1E95E,lexy::code_point::Po,0,0},
{0x1E960,lexy::code_point::Cn,0,0},
{0x1EC71,lexy::code_point::No,0,0},
{0x1ECAC,lexy::code_point::So,0,0},
{0x1ECAD,lexy::code_point::No,0,0},
{0x1ECB0,lexy::code_point::Sc,0,0},
{0x1ECB1,lexy::code_point::No,0,0},
{0x1ECB5,lexy::code_point::Cn,0,0},
{0x1ED01,lexy::code_point::No,0,0},
{0x1ED2E,lexy::code_point::So,0,0},
{0x1ED2F,lexy::code_point::No,0,0},
{0x1ED3E,lexy::code_point::Cn,0,0},
{0x1EE00,lexy::code_point::Lo,100,0},
{0x1EE04,lexy::code_point::Cn,0,0},
{0x1EE05,lexy::code_point::Lo,100,0},
{0x1EE20,lexy::code_point::Cn,0,0},
{0x1EE21,lexy::code_point::Lo,100,0},
{0x1EE23,lexy::code_point::Cn,0,0},
{0x1EE24,lexy::code_point::Lo,100,0},
{0x1EE25,lexy::code_point::Cn,0,0},
{0x1EE27,lexy::code_point::Lo,100,0},
{0x1EE28,lexy::code_point::Cn,0,0},
{0x1EE29,lexy::code_point::Lo,100,0},
{0x1EE33,lexy::code_point::Cn,0,0},
{0x1EE34,lexy::code_point::Lo,100,0},
{0x1EE38,lexy::code_point::Cn,0,0},
{0x1EE39,lexy::code_point::Lo,100,0},
{0x1EE3A,lexy::code_point::Cn,0,0},
{0x1EE3B,lexy::code_point::Lo,100,0},
{0x1EE3C,lexy::code_point::Cn,0,0},
{0x1EE42,lexy::code_point::Lo,100,0},
{0x1EE43,lexy::code_point::Cn,0,0},
{0x1EE47,lexy::code_point::Lo,100,0},
{0x1EE48,lexy::code_point::Cn,0,0},
{0x1EE49,lexy::code_point::Lo,100,0},
{0x1EE4A,lexy::code_point::Cn,0,0},
{0x1EE4B,lexy::code_point::Lo,100,0},
{0x1EE4C,lexy::code_point::Cn,0,0},
{0x1EE4D,lexy::code_point::Lo,100,0},
{0x1EE50,lexy::code_point::Cn,0,0},
{0x1EE51,lexy::code_point::Lo,100,0},
{0x1EE53,lexy::code_point::Cn,0,0},
{0x1EE54,lexy::code_point::Lo,100,0},
{0x1EE55,lexy::code_point::Cn,0,0},
{0x1EE57,lexy::code_point::Lo,100,0},
{0x1EE58,lexy::code_point::Cn,0,0},
{0x1EE59,lexy::code_point::Lo,100,0},
{0x1EE5A,lexy::code_point::Cn,0,0},
{0x1EE5B,lexy::code_point::Lo,100,0},
{0x1EE5C,lexy::code_point::Cn,0,0},
{0x1EE5D,lexy::code_point::Lo,100,0},
{0x1EE5E,lexy::code_point::Cn,0,0},
{0x1EE5F,lexy::code_point::Lo,100,0},
{0x1EE60,lexy::code_point::Cn,0,0},
{0x1EE61,lexy::code_point::Lo,100,0},
{0x1EE63,lexy::code_point::Cn,0,0},
{0x1EE64,lexy::code_point::Lo,100,0},
{0x1EE65,lexy::code_point::Cn,0,0},
{0x1EE67,lexy::code_point::Lo,100,0},
{0x1EE6B,lexy::code_point::Cn,0,0},
{0x1EE6C,lexy::code_point::Lo,100,0},
{0x1EE73,lexy::code_point::Cn,0,0},
{0x1EE74,lexy::code_point::Lo,100,0},
{0x1EE78,lexy::code_point::Cn,0,0},
{0x1EE79,lexy::code_point::Lo,100,0},
{0x1EE7D,lexy::code_point::Cn,0,0},
{0x1EE7E,lexy::code_point::Lo,100,0},
{0x1EE7F,lexy::code_point::Cn,0,0},
{0x1EE80,lexy::code_point::Lo,100,0},
{0x1EE8A,lexy::code_point::Cn,0,0},
{0x1EE8B,lexy::code_point::Lo,100,0},
{0x1EE9C,lexy::code_point::Cn,0,0},
{0x1EEA1,lexy::code_point::Lo,100,0},
{0x1EEA4,lexy::code_point::Cn,0,0},
{0x1EEA5,lexy::code_point::Lo,100,0},
{0x1EEAA,lexy::code_point::Cn,0,0},
{0x1EEAB,lexy::code_point::Lo,100,0},
{0x1EEBC,lexy::code_point::Cn,0,0},
{0x1EEF0,lexy::code_point::Sm,0,0},
{0x1EEF2,lexy::code_point::Cn,0,0},
{0x1F000,lexy::code_point::So,0,0},
{0x1F02C,lexy::code_point::Cn,0,0},
{0x1F030,lexy::code_point::So,0,0},
{0x1F094,lexy::code_point::Cn,0,0},
{0x1F0A0,lexy::code_point::So,0,0},
{0x1F0AF,lexy::code_point::Cn,0,0},
{0x1F0B1,lexy::code_point::So,0,0},
{0x1F0C0,lexy::code_point::Cn,0,0},
{0x1F0C1,lexy::code_point::So,0,0},
{0x1F0D0,lexy::code_point::Cn,0,0},
{0x1F0D1,lexy::code_point::So,0,0},
{0x1F0F6,lexy::code_point::Cn,0,0},
{0x1F100,lexy::code_point::No,0,0},
{0x1F10D,lexy::code_point::So,0,0},
{0x1F130,lexy::code_point::So,12,0},
{0x1F14A,lexy::code_point::So,0,0},
{0x1F150,lexy::code_point::So,12,0},
{0x1F16A,lexy::code_point::So,0,0},
{0x1F170,lexy::code_point::So,12,0},
{0x1F18A,lexy::code_point::So,0,0},
{0x1F1AE,lexy::code_point::Cn,0,0},
{0x1F1E6,lexy::code_point::So,0,0},
{0x1F203,lexy::code_point::Cn,0,0},
{0x1F210,lexy::code_point::So,0,0},
{0x1F23C,lexy::code_point::Cn,0,0},
{0x1F240,lexy::code_point::So,0,0},
{0x1F249,lexy::code_point::Cn,0,0},
{0x1F250,lexy::code_point::So,0,0},
{0x1F252,lexy::code_point::Cn,0,0},
{0x1F260,lexy::code_point::So,0,0},
{0x1F266,lexy::code_point::Cn,0,0},
{0x1F300,lexy::code_point::So,0,0},
{0x1F3FB,lexy::code_point::Sk,0,0},
{0x1F400,lexy::code_point::So,0,0},
{0x1F6D8,lexy::code_point::Cn,0,0},
{0x1F6DC,lexy::code_point::So,0,0},
{0x1F6ED,lexy::code_point::Cn,0,0},
{0x1F6F0,lexy::code_point::So,0,0},
{0x1F6FD,lexy::code_point::Cn,0,0},
{0x1F700,lexy::code_point::So,0,0},
{0x1F777,lexy::code_point::Cn,0,0},
{0x1F77B,lexy::code_point::So,0,0},
{0x1F7DA,lexy::code_point::Cn,0,0},
{0x1F7E0,lexy::code_point::So,0,0},
{0x1F7EC,lexy::code_point::Cn,0,0},
{0x1F7F0,lexy::code_point::So,0,0},
{0x1F7F1,lexy::code_point::Cn,0,0},
{0x1F800,lexy::code_point::So,0,0},
{0x1F80C,lexy::code_point::Cn,0,0},
{0x1F810,lexy::code_point::So,0,0},
{0x1F848,lexy::code_point::Cn,0,0},
{0x1F850,lexy::code_point::So,0,0},
{0x1F85A,lexy::code_point::Cn,0,0},
{0x1F860,lexy::code_point::So,0,0},
{0x1F888,lexy::code_point::Cn,0,0},
{0x1F890,lexy::code_point::So,0,0},
{0x1F8AE,lexy::code_point::Cn,0,0},
{0x1F8B0,lexy::code_point::So,0,0},
{0x1F8B2,lexy::code_point::Cn,0,0},
{0x1F900,lexy::code_point::So,0,0},
{0x1FA54,lexy::code_point::Cn,0,0},
{0x1FA60,lexy::code_point::So,0,0},
{0x1FA6E,lexy::code_point::Cn,0,0},
{0x1FA70,lexy::code_point::So,0,0},
{0x1FA7D,lexy::code_point::Cn,0,0},
{0x1FA80,lexy::code_point::So,0,0},
{0x1FA89,lexy::code_point::Cn,0,0},
{0x1FA90,lexy::code_point::So,0,0},
{0x1FABE,lexy::code_point::Cn,0,0},
{0x1FABF,lexy::code_point::So,0,0},
{0x1FAC6,lexy::code_point::Cn,0,0},
{0x1FACE,lexy::code_point::So,0,0},
{0x1FADC,lexy::code_point::Cn,0,0},
{0x1FAE0,lexy::code_point::So,0,0},
{0x1FAE9,lexy::code_point::Cn,0,0},
{0x1FAF0,lexy::code_point::So,0,0},
{0x1FAF9,lexy::code_point::Cn,0,0},
{0x1FB00,lexy::code_point::So,0,0},
{0x1FB93,lexy::code_point::Cn,0,0},
{0x1FB94,lexy::code_point::So,0,0},
{0x1FBCB,lexy::code_point::Cn,0,0},
{0x1FBF0,lexy::code_point::Nd,64,0},
{0x1FBFA,lexy::code_point::Cn,0,0},
{0x20000,lexy::code_point::Lo,100,0},
{0x2A6E0,lexy::code_point::Cn,0,0},
{0x2A700,lexy::code_point::Lo,100,0},
{0x2B73A,lexy::code_point::Cn,0,0},
{0x2B740,lexy::code_point::Lo,100,0},
{0x2B81E,lexy::code_point::Cn,0,0},
{0x2B820,lexy::code_point::Lo,100,0},
{0x2CEA2,lexy::code_point::Cn,0,0},
{0x2CEB0,lexy::code_point::Lo,100,0},
{0x2EBE1,lexy::code_point::Cn,0,0},
{0x2F800,lexy::code_point::Lo,100,0},
{0x2FA1E,lexy::code_point::Cn,0,0},
{0x30000,lexy::code_point::Lo,100,0},
{0x3134B,lexy::code_point::Cn,0,0},
{0x31350,lexy::code_point::Lo,100,0},
{0x323B0,lexy::code_point::Cn,0,0},
{0xE0001,lexy::code_point::Cf,0,0},
{0xE0002,lexy::code_point::Cn,0,0},
{0xE0020,lexy::code_point::Cf,0,0},
{0xE0080,lexy::code_point::Cn,0,0},
{0xE0100,lexy::code_point::Mn,64,0},
{0xE01F0,lexy::code_point::Cn,0,0},
{0xF0000,lexy::code_point::Co,0,0},
{0xFFFFE,lexy::code_point::Cn,0,0},
{0x100000,lexy::code_point::Co,0,0},
{0x10FFFE,lexy::code_point::Cn,0,0},
