[0x2c58400000000000, 0x1334230e28000000, 0xc79b117dd04a400, 0xe74ca9f85e52f56f, 0x5d95db743965ecc4, 0xb6571c71c1f3d725, 0x4aae26830d5c623c, 0x56f8041d49811022, 0x2fe512e034f9b78f, 0x61f41ebf9b727c35, 0x85b918349de5865f, 0x78814d749d54]