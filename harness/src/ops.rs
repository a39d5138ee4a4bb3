//! Requester operations as data.
use crate::sim::*;
use crate::util::*;
use spdmlib::error::SpdmResult;
use spdmlib::message::*;
use spdmlib::protocol::*;

#[derive(Clone, Debug)]
pub enum Op {
    Init,
    Digest(Option<u32>),
    Cert(Option<u32>, u8),
    Challenge(u8, u8),
    /// session, slot, attributes, operation
    Meas(Option<u32>, u8, u8, u8),
    Start(bool, u8, u8),
    Heartbeat(u32),
    KeyUpdate(u32, u8),
    End(u32),
    /// session, standards body, vendor id, payload
    Vendor(Option<u32>, u16, Vec<u8>, Vec<u8>),
    App(u32, Vec<u8>),
    Version,
    Caps,
    Algo,
}
#[derive(Clone, Debug, Default)]
pub struct Res {
    pub session: Option<u32>,
    pub total: u8,
    pub blocks: u8,
    pub record: Vec<u8>,
    pub data: Vec<u8>,
}
impl Op {
    pub fn session(&self) -> Option<u32> {
        match self {
            Op::Digest(i) | Op::Cert(i, _) | Op::Meas(i, ..) | Op::Vendor(i, ..) => *i,
            Op::Heartbeat(i) | Op::KeyUpdate(i, _) | Op::End(i) | Op::App(i, _) => Some(*i),
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Init => "init",
            Op::Digest(None) => "get_digests",
            Op::Digest(_) => "get_digests in session",
            Op::Cert(None, _) => "get_certificate",
            Op::Cert(_, _) => "get_certificate in session",
            Op::Challenge(..) => "challenge",
            Op::Meas(None, _, a, _) => {
                if a & 1 == 1 {
                    "signed get_measurements"
                } else {
                    "get_measurements"
                }
            }
            Op::Meas(_, _, a, _) => {
                if a & 1 == 1 {
                    "signed get_measurements in session"
                } else {
                    "get_measurements in session"
                }
            }
            Op::Start(false, ..) => "start_session",
            Op::Start(true, ..) => "start_session psk",
            Op::Heartbeat(_) => "heartbeat",
            Op::KeyUpdate(_, 1) => "key_update single",
            Op::KeyUpdate(..) => "key_update all",
            Op::End(_) => "end_session",
            Op::Vendor(None, ..) => "vendor",
            Op::Vendor(..) => "vendor in session",
            Op::App(..) => "app data",
            Op::Version => "get_version",
            Op::Caps => "get_capabilities",
            Op::Algo => "negotiate_algorithms",
        }
    }
}
pub fn summary_type(x: u8) -> SpdmMeasurementSummaryHashType {
    match x {
        0 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeNone,
        1 => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb,
        0xff => SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll,
        v => SpdmMeasurementSummaryHashType::Unknown(v),
    }
}
pub fn meas_op(x: u8) -> SpdmMeasurementOperation {
    match x {
        0 => SpdmMeasurementOperation::SpdmMeasurementQueryTotalNumber,
        0xff => SpdmMeasurementOperation::SpdmMeasurementRequestAll,
        v => SpdmMeasurementOperation::Unknown(v),
    }
}
pub fn body(x: u16) -> RegistryOrStandardsBodyID {
    use codec::{Codec, Reader};
    let b = x.to_le_bytes();
    RegistryOrStandardsBodyID::read(&mut Reader::init(&b)).unwrap()
}
pub fn run(s: &mut Sim, op: &Op) -> Out<Res> {
    let name = op.name();
    match op.clone() {
        Op::Init => s.op(name, |r| r.init_connection().map(|_| Res::default())),
        Op::Version => s.op(name, |r| r.send_receive_spdm_version().map(|_| Res::default())),
        Op::Caps => s.op(name, |r| r.send_receive_spdm_capability().map(|_| Res::default())),
        Op::Algo => s.op(name, |r| r.send_receive_spdm_algorithm().map(|_| Res::default())),
        Op::Digest(i) => s.op(name, move |r| r.send_receive_spdm_digest(i).map(|_| Res::default())),
        Op::Cert(i, slot) => s.op(name, move |r| r.send_receive_spdm_certificate(i, slot).map(|_| Res::default())),
        Op::Challenge(slot, ty) => {
            s.op(name, move |r| r.send_receive_spdm_challenge(slot, summary_type(ty)).map(|_| Res::default()))
        }
        Op::Meas(i, slot, attr, o) => s.op(name, move |r| {
            let mut total = 0u8;
            let mut rec = SpdmMeasurementRecordStructure::default();
            r.send_receive_spdm_measurement(
                i,
                slot,
                SpdmMeasurementAttributes::from_bits_truncate(attr),
                meas_op(o),
                &mut total,
                &mut rec,
            )?;
            let n = rec.measurement_record_length.get() as usize;
            Ok(Res {
                total,
                blocks: rec.number_of_blocks,
                record: rec.measurement_record_data[..n.min(rec.measurement_record_data.len())].to_vec(),
                ..Default::default()
            })
        }),
        Op::Start(psk, slot, ty) => s.op(name, move |r| {
            let id = r.start_session(psk, slot, summary_type(ty))?;
            Ok(Res { session: Some(id), ..Default::default() })
        }),
        Op::Heartbeat(i) => s.op(name, move |r| r.send_receive_spdm_heartbeat(i).map(|_| Res::default())),
        Op::KeyUpdate(i, o) => s.op(name, move |r| {
            let o = if o == 1 {
                SpdmKeyUpdateOperation::SpdmUpdateSingleKey
            } else {
                SpdmKeyUpdateOperation::SpdmUpdateAllKeys
            };
            r.send_receive_spdm_key_update(i, o).map(|_| Res::default())
        }),
        Op::End(i) => s.op(name, move |r| r.end_session(i).map(|_| Res::default())),
        Op::Vendor(i, b, id, p) => s.op(name, move |r| {
            let mut v = VendorIDStruct { len: id.len() as u8, vendor_id: [0; MAX_SPDM_VENDOR_DEFINED_VENDOR_ID_LEN] };
            v.vendor_id[..id.len()].copy_from_slice(&id);
            let mut q = VendorDefinedReqPayloadStruct {
                req_length: p.len() as u16,
                vendor_defined_req_payload: [0; MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
            };
            q.vendor_defined_req_payload[..p.len()].copy_from_slice(&p);
            let a = r.send_spdm_vendor_defined_request(i, body(b), v, q)?;
            let n = a.rsp_length as usize;
            Ok(Res { data: a.vendor_defined_rsp_payload[..n.min(a.vendor_defined_rsp_payload.len())].to_vec(), ..Default::default() })
        }),
        Op::App(i, d) => s.op(name, move |r| -> SpdmResult<Res> {
            r.send_secured_message(i, &d, true)?;
            let mut b = [0u8; 4096];
            let n = r.receive_secured_message(i, &mut b, false)?;
            Ok(Res { data: b[..n].to_vec(), ..Default::default() })
        }),
    }
}
pub fn op_str(o: &Op) -> String {
    match o {
        Op::Vendor(i, b, id, p) => format!("Vendor({:x?},{:x},id {},payload {}B)", i, b, id.len(), p.len()),
        Op::App(i, d) => format!("App({:x},{})", i, hexs(&d[..d.len().min(16)])),
        o => format!("{:x?}", o),
    }
}
