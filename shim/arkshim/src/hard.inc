[0x1, 0x2e16ba8860000000, 0x68c0eaeea22e6800, 0x719b834b69044687, 0xf4f6974b4ff0fa27, 0x27dc8f4db069bf65, 0xabcaf63f0a34fcb8, 0xbd948d5f4548283, 0xaae0551dffcf72fb, 0xd1eefd89535f9b5a, 0xfcd1c3fa1470f8b2, 0x1a8d889828282015, 0x5497a9781d812991, 0xcc65eca9c9678a84, 0xc548afd84225b34c, 0xbef98d9c2cce3b25, 0x3b4074a5448da5cf, 0x576728e56efc3bf, 0x774d7d810d5cbdf, 0x6d616e4372]