#![allow(clippy::all)]
mod comp;
mod framing;
mod g;
mod keys;
mod refd;
mod rt;
mod total;
mod wire;
vp::harnesses! { framing::h_f_chunks, framing::h_f_frames, framing::h_f_proto, framing::h_f_proto_out, framing::h_f_size, framing::h_f_header, framing::h_f_short,
  keys::h_k_scalar, keys::h_k_float, keys::h_k_mixed, keys::h_k_text, keys::h_k_compound, keys::h_k_any, keys::h_k_lookup, keys::h_k_borrowed,
  total::h_tot_variant, total::h_tot_frame, total::h_tot_comp, total::h_tot_field, total::h_tot_typed, total::h_tot_inner,
  total::h_tot_msg, total::h_tot_deep, total::h_tot_ts,
  total::h_tot_near, total::h_tot_near_comp, total::h_tot_near_msg, total::h_tot_stream,
  wire::h_w_scalar, wire::h_w_compound, wire::h_w_array, wire::h_w_typed_map, wire::h_w_comp, wire::h_w_state, wire::h_w_msg, wire::h_w_any,
  wire::h_c_any, wire::h_c_compound, wire::h_c_typed, wire::h_c_comp,
  rt::h_rt_scalar, rt::h_rt_long, rt::h_rt_compound, rt::h_rt_compound_long, rt::h_rt_array, rt::h_rt_array_forward,
  rt::h_rt_comp, rt::h_rt_frame, rt::h_rt_sasl, rt::h_rt_comp_long, rt::h_rt_enum, rt::h_rt_msg, rt::h_rt_msg_long, rt::h_msg_mutations }
