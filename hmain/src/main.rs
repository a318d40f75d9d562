#![allow(clippy::all)]
#![allow(dead_code, unused_imports)]
mod chan;
mod links;
mod waits;
mod idle;
mod sasl;
mod route;
mod any;
mod credit;
mod net;
mod probe;
mod window;
mod rcv;
mod disp;
mod send;
mod wire;
mod world;
vp::harnesses! { route::h_s17_route, any::h_s15_any, sasl::h_s14_server, sasl::h_s14_client, idle::h_s13_idle, waits::h_s11_waits, links::h_s16_reuse, links::h_s9_links, chan::h_s10_chan, credit::h_s1_credit, disp::h_s7_disp, disp::h_s8_settle, rcv::h_s5_credit, rcv::h_s6_assembly, send::h_s3_send, send::h_s4_size, window::h_s2_window, probe::h_p_connect }
