use crate::common::*;
use crate::sym::*;
use rx509::der::*;

fn verdict(ok: bool) {
    if ok {
        cover("accepted");
    } else {
        cover("rejected");
    }
}
/// any identifier octet over contents that suit the various types
fn shapes() {
    let shapes: [&[u8]; 12] = [
        &[],
        &[0],
        &[255],
        &[0, 0],
        &[0x2a, 3],
        b"a",
        b"200229120000Z",
        b"20200229120000Z",
        &[5, 0],
        &[0x30, 0],
        &[0x80],
        &[7, 0x80, 4, 0],
    ];
    let s = shapes[arg() as usize];
    let mut b = tlv(0, s);
    b[0] = byte();
    // alone, followed by another element, inside a container
    match choose(0, 2) {
        0 => verdict(compare_walk(&b)),
        1 => verdict(compare_walk(&cat(&[&b, &[5, 0]]))),
        _ => verdict(compare_walk(&tlv(0x31, &b))),
    }
}
/// any identifier octet, any contents of `arg` octets
fn any() {
    let n = arg() as usize;
    let mut b = tlv(0, &bytes(n));
    b[0] = byte();
    verdict(compare_walk(&b));
}
/// any identifier octet, then anything (multi-octet tag forms), `arg` octets in all
fn raw() {
    verdict(compare_walk(&bytes(arg() as usize)));
}
/// long contents
fn long() {
    let mut b = tlv(0, &[0; 130]);
    b[0] = byte();
    verdict(compare_walk(&b));
}
/// the identifier octet split into class, form and number
fn split() {
    let b = byte();
    let i = Identifier::from(b);
    let class = match i.class {
        TagClass::Universal => 0,
        TagClass::Application => 1,
        TagClass::ContextSpecific => 2,
        TagClass::Private => 3,
    };
    let form = match i.pc {
        PC::Primitive => 0,
        PC::Constructed => 1,
    };
    check(class == b / 64, "class differs");
    check(form == b / 32 % 2, "primitive/constructed differs");
    check(i.tag == b % 32, "tag number differs");
    observe(class as u64 * 64 + form as u64 * 32 + i.tag as u64);
    cover("split");
}
export! { h_c04_shapes => shapes, h_c04_any => any, h_c04_raw => raw, h_c04_long => long, h_c04_split => split }
