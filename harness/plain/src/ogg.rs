//! Ogg Vorbis streams of silence, made by the reference encoder.
use aotuv_lancer_vorbis_sys::*;
use ogg_next_sys::*;
use std::mem::zeroed;

/// `frames` of silence.
pub fn ogg(channels: usize, rate: i64, frames: usize) -> Vec<u8> {
    unsafe {
        let (mut vi, mut vc, mut vd, mut vb, mut os): (vorbis_info, vorbis_comment, vorbis_dsp_state, vorbis_block, ogg_stream_state) = (zeroed(), zeroed(), zeroed(), zeroed(), zeroed());
        vorbis_info_init(&mut vi);
        assert_eq!(vorbis_encode_init_vbr(&mut vi, channels as _, rate as _, 0.1), 0);
        vorbis_comment_init(&mut vc);
        assert_eq!(vorbis_analysis_init(&mut vd, &mut vi), 0);
        vorbis_block_init(&mut vd, &mut vb);
        ogg_stream_init(&mut os, 1);
        let mut out = vec![];
        let mut page: ogg_page = zeroed();
        let push = |out: &mut Vec<u8>, p: &ogg_page| { out.extend_from_slice(std::slice::from_raw_parts(p.header, p.header_len as usize)); out.extend_from_slice(std::slice::from_raw_parts(p.body, p.body_len as usize)); };
        let mut h: [ogg_packet; 3] = zeroed();
        vorbis_analysis_headerout(&mut vd, &mut vc, &mut h[0], (&mut h[1]) as *mut _, (&mut h[2]) as *mut _);
        for p in &mut h { ogg_stream_packetin(&mut os, p); }
        while ogg_stream_flush(&mut os, &mut page) != 0 { push(&mut out, &page); }
        if frames > 0 {
            let b = vorbis_analysis_buffer(&mut vd, frames as _);
            for c in 0..channels { for i in 0..frames { *(*b.add(c)).add(i) = 0.0 } }
            vorbis_analysis_wrote(&mut vd, frames as _);
        }
        vorbis_analysis_wrote(&mut vd, 0);
        let mut packet: ogg_packet = zeroed();
        while vorbis_analysis_blockout(&mut vd, &mut vb) == 1 {
            vorbis_analysis(&mut vb, std::ptr::null_mut());
            vorbis_bitrate_addblock(&mut vb);
            while vorbis_bitrate_flushpacket(&mut vd, &mut packet) != 0 {
                ogg_stream_packetin(&mut os, &mut packet);
                while ogg_stream_pageout(&mut os, &mut page) != 0 { push(&mut out, &page); }
            }
        }
        while ogg_stream_flush(&mut os, &mut page) != 0 { push(&mut out, &page); }
        ogg_stream_clear(&mut os); vorbis_block_clear(&mut vb); vorbis_dsp_clear(&mut vd); vorbis_comment_clear(&mut vc); vorbis_info_clear(&mut vi);
        out
    }
}
