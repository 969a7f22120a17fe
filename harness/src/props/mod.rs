use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use bytes::BytesMut;
use mqttbytes::Error;

mod decode;
mod encode;
mod resources;
mod roundtrip;
mod stream;
mod tables;
mod topics;
mod values;
mod work;

pub use resources::digest;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(roundtrip::props());
    v.extend(decode::props());
    v.extend(stream::props());
    v.extend(encode::props());
    v.extend(topics::props());
    v.extend(tables::props());
    v.extend(resources::props());
    v.extend(values::props());
    v.extend(work::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn vname(v: Ver) -> &'static str {
    if v == V4 {
        "v4"
    } else {
        "v5"
    }
}

pub fn same(what: &str, got: &M, want: &M) -> R {
    if got != want {
        return fail(clip(format!("{what}: got {got:?}, expected {want:?}")));
    }
    Ok(())
}

/// Read a stream that is one complete valid frame of `want`.
pub fn must_read(bytes: &[u8], ver: Ver, want: &M) -> R {
    let mut s = BytesMut::from(bytes);
    match read(&mut s, usize::MAX, ver)? {
        Err(e) => fail(format!("{} reader rejects {} (a {:?}): {e:?}", vname(ver), hex(bytes), TYPE_NAMES[want.ty() as usize])),
        Ok(p) => {
            same(&format!("decoding {}", hex(bytes)), &p.model(), want)?;
            ensure!(s.is_empty(), "{} bytes of the frame {} stay in the stream", s.len(), hex(bytes));
            Ok(())
        }
    }
}

/// The bytes are one well-formed frame of exactly this packet, by the reference decoder.
pub fn strictly(bytes: &[u8], ver: Ver, want: &M) -> R {
    match framing(bytes, usize::MAX) {
        Framing::Frame(h, n) if h + n == bytes.len() => {}
        f => return fail(format!("encoded bytes {} are not one frame: {f:?}", hex(bytes))),
    }
    match decode(bytes, ver) {
        Verdict::Accept(m) => same(&format!("reference decoding of {}", hex(bytes)), &m.canon(ver), want),
        Verdict::Lenient(m, w) => fail(format!("encoded frame {} breaks a rule ({w}), reads as {m:?}", hex(bytes))),
        Verdict::Reject(w) => fail(format!("encoded frame {} is malformed: {w}", hex(bytes))),
    }
}

/// Hold the result of a read against the reference verdict on the frame.
pub fn judge(ver: Ver, frame: &[u8], v: &Verdict, r: &Result<P, Error>) -> R {
    match (v, r) {
        (_, Err(e)) if more(e) => {
            fail(format!("{} reader asks for more bytes ({e:?}) on the complete frame {}", vname(ver), hex(frame)))
        }
        (Verdict::Reject(w), Ok(p)) => {
            fail(clip(format!("{} reader accepts the malformed frame {} ({w}) as {:?}", vname(ver), hex(frame), p.model())))
        }
        (Verdict::Accept(m), Ok(p)) | (Verdict::Lenient(Some(m), _), Ok(p)) => {
            let (got, mut want) = (p.model(), m.clone().canon(ver));
            resolve(&mut want, &got);
            same(&format!("decoding {}", hex(frame)), &got, &want)
        }
        _ => Ok(()),
    }
}

pub fn verdict_label(v: &Verdict) -> &'static str {
    match v {
        Verdict::Accept(_) => "verdict: valid",
        Verdict::Lenient(..) => "verdict: tolerated",
        Verdict::Reject(_) => "verdict: malformed",
    }
}

/// The specification-level self test: what the generator calls valid, the reference decoder accepts.
pub fn self_test(m: &M, ver: Ver, frame: &[u8]) {
    match decode(frame, ver) {
        Verdict::Accept(d) if d.clone().canon(ver) == m.clone().canon(ver) => {}
        v => panic!("reference model disagrees with itself on {m:?}: {v:?}"),
    }
}
