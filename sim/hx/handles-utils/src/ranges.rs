/// The supported Unicode blocks (first and last code point), from the documentation of the handles pallet.
pub const SUPPORTED: [(u32, u32); 21] = [
    (0x0020, 0x007F), (0x0080, 0x00FF), (0x0100, 0x017F), (0x0370, 0x03FF), (0x0400, 0x04FF), (0x0500, 0x052F), (0x0590, 0x05FF),
    (0x0600, 0x06FF), (0x0900, 0x097F), (0x0980, 0x09FF), (0x0E00, 0x0E7F), (0x1100, 0x11FF), (0x1E00, 0x1EFF), (0x1F00, 0x1FFF),
    (0x3040, 0x309F), (0x30A0, 0x30FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xAC00, 0xD7AF), (0xF900, 0xFAFF), (0xFB50, 0xFDFF),
];
