// what the generated records refer to
tedium::cstyle!(ESparse8, u8, { Two = 2, Three = 3, Five = 5, Seven = 7, Top = 255 });
tedium::cstyle!(EUnordered16, u16, { C = 0x0300, A = 0x0001, B = 0x0100, Z = 0xffff, Zero = 0 });
tedium::cstyle!(EWide32, u32, { Unit = 0, Big = 0x3fffffff, Mid = 0x00010000 });
tedium::data!(DMixed, u8, dmixed, {
    0 => Nothing (),
    1 => Small (pub u8),
    9 => Named { pub x: Dynamic<u8, String>, pub y: N },
});
tedium::data!(DWide, u16, dwide, {
    0x0100 => WA (pub u30),
    0xfffe => WC (),
});
pub type FUnit = RangedF64!(-1.0, 1.0);
