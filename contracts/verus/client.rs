//@ for: C07 C08 C10 C03 C09 C01 C20
//@ panics: C03
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bhalf_connection::Config\b/HcConfig/
//@ rewrite /\bhalf_connection::(?=HalfConnection)//
//@ rewrite /\bnet::(?=SocketAddr|UdpSocket)//
//@ rewrite /\btime::(?=Instant)//
//@ rewrite /\bstd::io::Error\b/IoError/
//@ rewrite /\brand::random::<u32>\(\)/random_u32()/
//@ rewrite /\buse crate::packet_id;//
//@ rewrite /\bpacket_id::(?=MASK)//
//@ rewrite /\bmatch self\.state \{/match &mut self.state {/
//@ rewrite /\((ref mut|ref) (\w+)\) =>/(\2) =>/
//@ rewrite /(\w+\.half_connection)\.receive\(&mut PacketReceiveSink::new\(&mut self\.events_out\)\)/receive_into(&mut \1, &mut self.events_out)/
//@ rewrite /\bassert!\(([^,;]*),[^;]*\);/vassert(\1);/s
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include endpoint.inc
//@ include client.inc
}
fn main() {}
