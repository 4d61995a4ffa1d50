[0x1, 0x452217cc90000000, 0xa0f3622fba094800, 0xd693e8c36676bd09, 0x8c505634fae2e189, 0xfbb36b00e1dcc40c, 0xddd88d99a6f6a829, 0x26ba558ae9562a]