// generated by tools/mkdict.py from the dictionaries
use super::ops::{Acc, Row};
use radius::core::*;
pub fn rows() -> Vec<Row> { vec![
    Row { name: "rfc2865::user_name", num: 1, del: rfc2865::delete_user_name, acc: Acc::Str(rfc2865::add_user_name, rfc2865::lookup_user_name, rfc2865::lookup_all_user_name) },
    Row { name: "rfc2865::user_password", num: 2, del: rfc2865::delete_user_password, acc: Acc::UPw(rfc2865::add_user_password, rfc2865::lookup_user_password, rfc2865::lookup_all_user_password) },
    Row { name: "rfc2865::chap_password", num: 3, del: rfc2865::delete_chap_password, acc: Acc::Bytes(rfc2865::add_chap_password, rfc2865::lookup_chap_password, rfc2865::lookup_all_chap_password) },
    Row { name: "rfc2865::nas_ip_address", num: 4, del: rfc2865::delete_nas_ip_address, acc: Acc::V4(rfc2865::add_nas_ip_address, rfc2865::lookup_nas_ip_address, rfc2865::lookup_all_nas_ip_address) },
    Row { name: "rfc2865::nas_port", num: 5, del: rfc2865::delete_nas_port, acc: Acc::U32(rfc2865::add_nas_port, rfc2865::lookup_nas_port, rfc2865::lookup_all_nas_port) },
    Row { name: "rfc2865::service_type", num: 6, del: rfc2865::delete_service_type, acc: Acc::U32(rfc2865::add_service_type, rfc2865::lookup_service_type, rfc2865::lookup_all_service_type) },
    Row { name: "rfc2865::framed_protocol", num: 7, del: rfc2865::delete_framed_protocol, acc: Acc::U32(rfc2865::add_framed_protocol, rfc2865::lookup_framed_protocol, rfc2865::lookup_all_framed_protocol) },
    Row { name: "rfc2865::framed_ip_address", num: 8, del: rfc2865::delete_framed_ip_address, acc: Acc::V4(rfc2865::add_framed_ip_address, rfc2865::lookup_framed_ip_address, rfc2865::lookup_all_framed_ip_address) },
    Row { name: "rfc2865::framed_ip_netmask", num: 9, del: rfc2865::delete_framed_ip_netmask, acc: Acc::V4(rfc2865::add_framed_ip_netmask, rfc2865::lookup_framed_ip_netmask, rfc2865::lookup_all_framed_ip_netmask) },
    Row { name: "rfc2865::framed_routing", num: 10, del: rfc2865::delete_framed_routing, acc: Acc::U32(rfc2865::add_framed_routing, rfc2865::lookup_framed_routing, rfc2865::lookup_all_framed_routing) },
    Row { name: "rfc2865::filter_id", num: 11, del: rfc2865::delete_filter_id, acc: Acc::Str(rfc2865::add_filter_id, rfc2865::lookup_filter_id, rfc2865::lookup_all_filter_id) },
    Row { name: "rfc2865::framed_mtu", num: 12, del: rfc2865::delete_framed_mtu, acc: Acc::U32(rfc2865::add_framed_mtu, rfc2865::lookup_framed_mtu, rfc2865::lookup_all_framed_mtu) },
    Row { name: "rfc2865::framed_compression", num: 13, del: rfc2865::delete_framed_compression, acc: Acc::U32(rfc2865::add_framed_compression, rfc2865::lookup_framed_compression, rfc2865::lookup_all_framed_compression) },
    Row { name: "rfc2865::login_ip_host", num: 14, del: rfc2865::delete_login_ip_host, acc: Acc::V4(rfc2865::add_login_ip_host, rfc2865::lookup_login_ip_host, rfc2865::lookup_all_login_ip_host) },
    Row { name: "rfc2865::login_service", num: 15, del: rfc2865::delete_login_service, acc: Acc::U32(rfc2865::add_login_service, rfc2865::lookup_login_service, rfc2865::lookup_all_login_service) },
    Row { name: "rfc2865::login_tcp_port", num: 16, del: rfc2865::delete_login_tcp_port, acc: Acc::U32(rfc2865::add_login_tcp_port, rfc2865::lookup_login_tcp_port, rfc2865::lookup_all_login_tcp_port) },
    Row { name: "rfc2865::reply_message", num: 18, del: rfc2865::delete_reply_message, acc: Acc::Str(rfc2865::add_reply_message, rfc2865::lookup_reply_message, rfc2865::lookup_all_reply_message) },
    Row { name: "rfc2865::callback_number", num: 19, del: rfc2865::delete_callback_number, acc: Acc::Str(rfc2865::add_callback_number, rfc2865::lookup_callback_number, rfc2865::lookup_all_callback_number) },
    Row { name: "rfc2865::callback_id", num: 20, del: rfc2865::delete_callback_id, acc: Acc::Str(rfc2865::add_callback_id, rfc2865::lookup_callback_id, rfc2865::lookup_all_callback_id) },
    Row { name: "rfc2865::framed_route", num: 22, del: rfc2865::delete_framed_route, acc: Acc::Str(rfc2865::add_framed_route, rfc2865::lookup_framed_route, rfc2865::lookup_all_framed_route) },
    Row { name: "rfc2865::framed_ipx_network", num: 23, del: rfc2865::delete_framed_ipx_network, acc: Acc::V4(rfc2865::add_framed_ipx_network, rfc2865::lookup_framed_ipx_network, rfc2865::lookup_all_framed_ipx_network) },
    Row { name: "rfc2865::state", num: 24, del: rfc2865::delete_state, acc: Acc::Bytes(rfc2865::add_state, rfc2865::lookup_state, rfc2865::lookup_all_state) },
    Row { name: "rfc2865::class", num: 25, del: rfc2865::delete_class, acc: Acc::Bytes(rfc2865::add_class, rfc2865::lookup_class, rfc2865::lookup_all_class) },
    Row { name: "rfc2865::vendor_specific", num: 26, del: rfc2865::delete_vendor_specific, acc: Acc::Vsa(rfc2865::add_vsa_attribute) },
    Row { name: "rfc2865::session_timeout", num: 27, del: rfc2865::delete_session_timeout, acc: Acc::U32(rfc2865::add_session_timeout, rfc2865::lookup_session_timeout, rfc2865::lookup_all_session_timeout) },
    Row { name: "rfc2865::idle_timeout", num: 28, del: rfc2865::delete_idle_timeout, acc: Acc::U32(rfc2865::add_idle_timeout, rfc2865::lookup_idle_timeout, rfc2865::lookup_all_idle_timeout) },
    Row { name: "rfc2865::termination_action", num: 29, del: rfc2865::delete_termination_action, acc: Acc::U32(rfc2865::add_termination_action, rfc2865::lookup_termination_action, rfc2865::lookup_all_termination_action) },
    Row { name: "rfc2865::called_station_id", num: 30, del: rfc2865::delete_called_station_id, acc: Acc::Str(rfc2865::add_called_station_id, rfc2865::lookup_called_station_id, rfc2865::lookup_all_called_station_id) },
    Row { name: "rfc2865::calling_station_id", num: 31, del: rfc2865::delete_calling_station_id, acc: Acc::Str(rfc2865::add_calling_station_id, rfc2865::lookup_calling_station_id, rfc2865::lookup_all_calling_station_id) },
    Row { name: "rfc2865::nas_identifier", num: 32, del: rfc2865::delete_nas_identifier, acc: Acc::Str(rfc2865::add_nas_identifier, rfc2865::lookup_nas_identifier, rfc2865::lookup_all_nas_identifier) },
    Row { name: "rfc2865::proxy_state", num: 33, del: rfc2865::delete_proxy_state, acc: Acc::Bytes(rfc2865::add_proxy_state, rfc2865::lookup_proxy_state, rfc2865::lookup_all_proxy_state) },
    Row { name: "rfc2865::login_lat_service", num: 34, del: rfc2865::delete_login_lat_service, acc: Acc::Str(rfc2865::add_login_lat_service, rfc2865::lookup_login_lat_service, rfc2865::lookup_all_login_lat_service) },
    Row { name: "rfc2865::login_lat_node", num: 35, del: rfc2865::delete_login_lat_node, acc: Acc::Str(rfc2865::add_login_lat_node, rfc2865::lookup_login_lat_node, rfc2865::lookup_all_login_lat_node) },
    Row { name: "rfc2865::login_lat_group", num: 36, del: rfc2865::delete_login_lat_group, acc: Acc::Bytes(rfc2865::add_login_lat_group, rfc2865::lookup_login_lat_group, rfc2865::lookup_all_login_lat_group) },
    Row { name: "rfc2865::framed_apple_talk_link", num: 37, del: rfc2865::delete_framed_apple_talk_link, acc: Acc::U32(rfc2865::add_framed_apple_talk_link, rfc2865::lookup_framed_apple_talk_link, rfc2865::lookup_all_framed_apple_talk_link) },
    Row { name: "rfc2865::framed_apple_talk_network", num: 38, del: rfc2865::delete_framed_apple_talk_network, acc: Acc::U32(rfc2865::add_framed_apple_talk_network, rfc2865::lookup_framed_apple_talk_network, rfc2865::lookup_all_framed_apple_talk_network) },
    Row { name: "rfc2865::framed_apple_talk_zone", num: 39, del: rfc2865::delete_framed_apple_talk_zone, acc: Acc::Str(rfc2865::add_framed_apple_talk_zone, rfc2865::lookup_framed_apple_talk_zone, rfc2865::lookup_all_framed_apple_talk_zone) },
    Row { name: "rfc2865::chap_challenge", num: 60, del: rfc2865::delete_chap_challenge, acc: Acc::Bytes(rfc2865::add_chap_challenge, rfc2865::lookup_chap_challenge, rfc2865::lookup_all_chap_challenge) },
    Row { name: "rfc2865::nas_port_type", num: 61, del: rfc2865::delete_nas_port_type, acc: Acc::U32(rfc2865::add_nas_port_type, rfc2865::lookup_nas_port_type, rfc2865::lookup_all_nas_port_type) },
    Row { name: "rfc2865::port_limit", num: 62, del: rfc2865::delete_port_limit, acc: Acc::U32(rfc2865::add_port_limit, rfc2865::lookup_port_limit, rfc2865::lookup_all_port_limit) },
    Row { name: "rfc2865::login_lat_port", num: 63, del: rfc2865::delete_login_lat_port, acc: Acc::Str(rfc2865::add_login_lat_port, rfc2865::lookup_login_lat_port, rfc2865::lookup_all_login_lat_port) },
    Row { name: "rfc2866::acct_status_type", num: 40, del: rfc2866::delete_acct_status_type, acc: Acc::U32(rfc2866::add_acct_status_type, rfc2866::lookup_acct_status_type, rfc2866::lookup_all_acct_status_type) },
    Row { name: "rfc2866::acct_delay_time", num: 41, del: rfc2866::delete_acct_delay_time, acc: Acc::U32(rfc2866::add_acct_delay_time, rfc2866::lookup_acct_delay_time, rfc2866::lookup_all_acct_delay_time) },
    Row { name: "rfc2866::acct_input_octets", num: 42, del: rfc2866::delete_acct_input_octets, acc: Acc::U32(rfc2866::add_acct_input_octets, rfc2866::lookup_acct_input_octets, rfc2866::lookup_all_acct_input_octets) },
    Row { name: "rfc2866::acct_output_octets", num: 43, del: rfc2866::delete_acct_output_octets, acc: Acc::U32(rfc2866::add_acct_output_octets, rfc2866::lookup_acct_output_octets, rfc2866::lookup_all_acct_output_octets) },
    Row { name: "rfc2866::acct_session_id", num: 44, del: rfc2866::delete_acct_session_id, acc: Acc::Str(rfc2866::add_acct_session_id, rfc2866::lookup_acct_session_id, rfc2866::lookup_all_acct_session_id) },
    Row { name: "rfc2866::acct_authentic", num: 45, del: rfc2866::delete_acct_authentic, acc: Acc::U32(rfc2866::add_acct_authentic, rfc2866::lookup_acct_authentic, rfc2866::lookup_all_acct_authentic) },
    Row { name: "rfc2866::acct_session_time", num: 46, del: rfc2866::delete_acct_session_time, acc: Acc::U32(rfc2866::add_acct_session_time, rfc2866::lookup_acct_session_time, rfc2866::lookup_all_acct_session_time) },
    Row { name: "rfc2866::acct_input_packets", num: 47, del: rfc2866::delete_acct_input_packets, acc: Acc::U32(rfc2866::add_acct_input_packets, rfc2866::lookup_acct_input_packets, rfc2866::lookup_all_acct_input_packets) },
    Row { name: "rfc2866::acct_output_packets", num: 48, del: rfc2866::delete_acct_output_packets, acc: Acc::U32(rfc2866::add_acct_output_packets, rfc2866::lookup_acct_output_packets, rfc2866::lookup_all_acct_output_packets) },
    Row { name: "rfc2866::acct_terminate_cause", num: 49, del: rfc2866::delete_acct_terminate_cause, acc: Acc::U32(rfc2866::add_acct_terminate_cause, rfc2866::lookup_acct_terminate_cause, rfc2866::lookup_all_acct_terminate_cause) },
    Row { name: "rfc2866::acct_multi_session_id", num: 50, del: rfc2866::delete_acct_multi_session_id, acc: Acc::Str(rfc2866::add_acct_multi_session_id, rfc2866::lookup_acct_multi_session_id, rfc2866::lookup_all_acct_multi_session_id) },
    Row { name: "rfc2866::acct_link_count", num: 51, del: rfc2866::delete_acct_link_count, acc: Acc::U32(rfc2866::add_acct_link_count, rfc2866::lookup_acct_link_count, rfc2866::lookup_all_acct_link_count) },
    Row { name: "rfc2867::acct_tunnel_connection", num: 68, del: rfc2867::delete_acct_tunnel_connection, acc: Acc::Str(rfc2867::add_acct_tunnel_connection, rfc2867::lookup_acct_tunnel_connection, rfc2867::lookup_all_acct_tunnel_connection) },
    Row { name: "rfc2867::acct_tunnel_packets_lost", num: 86, del: rfc2867::delete_acct_tunnel_packets_lost, acc: Acc::U32(rfc2867::add_acct_tunnel_packets_lost, rfc2867::lookup_acct_tunnel_packets_lost, rfc2867::lookup_all_acct_tunnel_packets_lost) },
    Row { name: "rfc2868::tunnel_type", num: 64, del: rfc2868::delete_tunnel_type, acc: Acc::TInt(rfc2868::add_tunnel_type, rfc2868::lookup_tunnel_type, rfc2868::lookup_all_tunnel_type) },
    Row { name: "rfc2868::tunnel_medium_type", num: 65, del: rfc2868::delete_tunnel_medium_type, acc: Acc::TInt(rfc2868::add_tunnel_medium_type, rfc2868::lookup_tunnel_medium_type, rfc2868::lookup_all_tunnel_medium_type) },
    Row { name: "rfc2868::tunnel_client_endpoint", num: 66, del: rfc2868::delete_tunnel_client_endpoint, acc: Acc::TStr(rfc2868::add_tunnel_client_endpoint, rfc2868::lookup_tunnel_client_endpoint, rfc2868::lookup_all_tunnel_client_endpoint) },
    Row { name: "rfc2868::tunnel_server_endpoint", num: 67, del: rfc2868::delete_tunnel_server_endpoint, acc: Acc::TStr(rfc2868::add_tunnel_server_endpoint, rfc2868::lookup_tunnel_server_endpoint, rfc2868::lookup_all_tunnel_server_endpoint) },
    Row { name: "rfc2868::tunnel_password", num: 69, del: rfc2868::delete_tunnel_password, acc: Acc::TPw(rfc2868::add_tunnel_password, rfc2868::lookup_tunnel_password, rfc2868::lookup_all_tunnel_password) },
    Row { name: "rfc2868::tunnel_private_group_id", num: 81, del: rfc2868::delete_tunnel_private_group_id, acc: Acc::TStr(rfc2868::add_tunnel_private_group_id, rfc2868::lookup_tunnel_private_group_id, rfc2868::lookup_all_tunnel_private_group_id) },
    Row { name: "rfc2868::tunnel_assignment_id", num: 82, del: rfc2868::delete_tunnel_assignment_id, acc: Acc::TStr(rfc2868::add_tunnel_assignment_id, rfc2868::lookup_tunnel_assignment_id, rfc2868::lookup_all_tunnel_assignment_id) },
    Row { name: "rfc2868::tunnel_preference", num: 83, del: rfc2868::delete_tunnel_preference, acc: Acc::TInt(rfc2868::add_tunnel_preference, rfc2868::lookup_tunnel_preference, rfc2868::lookup_all_tunnel_preference) },
    Row { name: "rfc2868::tunnel_client_auth_id", num: 90, del: rfc2868::delete_tunnel_client_auth_id, acc: Acc::TStr(rfc2868::add_tunnel_client_auth_id, rfc2868::lookup_tunnel_client_auth_id, rfc2868::lookup_all_tunnel_client_auth_id) },
    Row { name: "rfc2868::tunnel_server_auth_id", num: 91, del: rfc2868::delete_tunnel_server_auth_id, acc: Acc::TStr(rfc2868::add_tunnel_server_auth_id, rfc2868::lookup_tunnel_server_auth_id, rfc2868::lookup_all_tunnel_server_auth_id) },
    Row { name: "rfc2869::acct_input_gigawords", num: 52, del: rfc2869::delete_acct_input_gigawords, acc: Acc::U32(rfc2869::add_acct_input_gigawords, rfc2869::lookup_acct_input_gigawords, rfc2869::lookup_all_acct_input_gigawords) },
    Row { name: "rfc2869::acct_output_gigawords", num: 53, del: rfc2869::delete_acct_output_gigawords, acc: Acc::U32(rfc2869::add_acct_output_gigawords, rfc2869::lookup_acct_output_gigawords, rfc2869::lookup_all_acct_output_gigawords) },
    Row { name: "rfc2869::event_timestamp", num: 55, del: rfc2869::delete_event_timestamp, acc: Acc::Date(rfc2869::add_event_timestamp, rfc2869::lookup_event_timestamp, rfc2869::lookup_all_event_timestamp) },
    Row { name: "rfc2869::arap_password", num: 70, del: rfc2869::delete_arap_password, acc: Acc::Fixed(16, rfc2869::add_arap_password, rfc2869::lookup_arap_password, rfc2869::lookup_all_arap_password) },
    Row { name: "rfc2869::arap_features", num: 71, del: rfc2869::delete_arap_features, acc: Acc::Fixed(14, rfc2869::add_arap_features, rfc2869::lookup_arap_features, rfc2869::lookup_all_arap_features) },
    Row { name: "rfc2869::arap_zone_access", num: 72, del: rfc2869::delete_arap_zone_access, acc: Acc::U32(rfc2869::add_arap_zone_access, rfc2869::lookup_arap_zone_access, rfc2869::lookup_all_arap_zone_access) },
    Row { name: "rfc2869::arap_security", num: 73, del: rfc2869::delete_arap_security, acc: Acc::U32(rfc2869::add_arap_security, rfc2869::lookup_arap_security, rfc2869::lookup_all_arap_security) },
    Row { name: "rfc2869::arap_security_data", num: 74, del: rfc2869::delete_arap_security_data, acc: Acc::Str(rfc2869::add_arap_security_data, rfc2869::lookup_arap_security_data, rfc2869::lookup_all_arap_security_data) },
    Row { name: "rfc2869::password_retry", num: 75, del: rfc2869::delete_password_retry, acc: Acc::U32(rfc2869::add_password_retry, rfc2869::lookup_password_retry, rfc2869::lookup_all_password_retry) },
    Row { name: "rfc2869::prompt", num: 76, del: rfc2869::delete_prompt, acc: Acc::U32(rfc2869::add_prompt, rfc2869::lookup_prompt, rfc2869::lookup_all_prompt) },
    Row { name: "rfc2869::connect_info", num: 77, del: rfc2869::delete_connect_info, acc: Acc::Str(rfc2869::add_connect_info, rfc2869::lookup_connect_info, rfc2869::lookup_all_connect_info) },
    Row { name: "rfc2869::configuration_token", num: 78, del: rfc2869::delete_configuration_token, acc: Acc::Str(rfc2869::add_configuration_token, rfc2869::lookup_configuration_token, rfc2869::lookup_all_configuration_token) },
    Row { name: "rfc2869::eap_message", num: 79, del: rfc2869::delete_eap_message, acc: Acc::Cat(rfc2869::add_eap_message, rfc2869::lookup_eap_message) },
    Row { name: "rfc2869::message_authenticator", num: 80, del: rfc2869::delete_message_authenticator, acc: Acc::Bytes(rfc2869::add_message_authenticator, rfc2869::lookup_message_authenticator, rfc2869::lookup_all_message_authenticator) },
    Row { name: "rfc2869::arap_challenge_response", num: 84, del: rfc2869::delete_arap_challenge_response, acc: Acc::Fixed(8, rfc2869::add_arap_challenge_response, rfc2869::lookup_arap_challenge_response, rfc2869::lookup_all_arap_challenge_response) },
    Row { name: "rfc2869::acct_interim_interval", num: 85, del: rfc2869::delete_acct_interim_interval, acc: Acc::U32(rfc2869::add_acct_interim_interval, rfc2869::lookup_acct_interim_interval, rfc2869::lookup_all_acct_interim_interval) },
    Row { name: "rfc2869::nas_port_id", num: 87, del: rfc2869::delete_nas_port_id, acc: Acc::Str(rfc2869::add_nas_port_id, rfc2869::lookup_nas_port_id, rfc2869::lookup_all_nas_port_id) },
    Row { name: "rfc2869::framed_pool", num: 88, del: rfc2869::delete_framed_pool, acc: Acc::Str(rfc2869::add_framed_pool, rfc2869::lookup_framed_pool, rfc2869::lookup_all_framed_pool) },
    Row { name: "rfc3162::nas_ipv6_address", num: 95, del: rfc3162::delete_nas_ipv6_address, acc: Acc::V6(rfc3162::add_nas_ipv6_address, rfc3162::lookup_nas_ipv6_address, rfc3162::lookup_all_nas_ipv6_address) },
    Row { name: "rfc3162::framed_interface_id", num: 96, del: rfc3162::delete_framed_interface_id, acc: Acc::Fixed(8, rfc3162::add_framed_interface_id, rfc3162::lookup_framed_interface_id, rfc3162::lookup_all_framed_interface_id) },
    Row { name: "rfc3162::framed_ipv6_prefix", num: 97, del: rfc3162::delete_framed_ipv6_prefix, acc: Acc::P6(rfc3162::add_framed_ipv6_prefix, rfc3162::lookup_framed_ipv6_prefix, rfc3162::lookup_all_framed_ipv6_prefix) },
    Row { name: "rfc3162::login_ipv6_host", num: 98, del: rfc3162::delete_login_ipv6_host, acc: Acc::V6(rfc3162::add_login_ipv6_host, rfc3162::lookup_login_ipv6_host, rfc3162::lookup_all_login_ipv6_host) },
    Row { name: "rfc3162::framed_ipv6_route", num: 99, del: rfc3162::delete_framed_ipv6_route, acc: Acc::Str(rfc3162::add_framed_ipv6_route, rfc3162::lookup_framed_ipv6_route, rfc3162::lookup_all_framed_ipv6_route) },
    Row { name: "rfc3162::framed_ipv6_pool", num: 100, del: rfc3162::delete_framed_ipv6_pool, acc: Acc::Str(rfc3162::add_framed_ipv6_pool, rfc3162::lookup_framed_ipv6_pool, rfc3162::lookup_all_framed_ipv6_pool) },
    Row { name: "rfc3576::error_cause", num: 101, del: rfc3576::delete_error_cause, acc: Acc::U32(rfc3576::add_error_cause, rfc3576::lookup_error_cause, rfc3576::lookup_all_error_cause) },
    Row { name: "rfc4072::eap_key_name", num: 102, del: rfc4072::delete_eap_key_name, acc: Acc::Bytes(rfc4072::add_eap_key_name, rfc4072::lookup_eap_key_name, rfc4072::lookup_all_eap_key_name) },
    Row { name: "rfc4372::chargeable_user_identity", num: 89, del: rfc4372::delete_chargeable_user_identity, acc: Acc::Bytes(rfc4372::add_chargeable_user_identity, rfc4372::lookup_chargeable_user_identity, rfc4372::lookup_all_chargeable_user_identity) },
    Row { name: "rfc4675::egress_vlanid", num: 56, del: rfc4675::delete_egress_vlanid, acc: Acc::U32(rfc4675::add_egress_vlanid, rfc4675::lookup_egress_vlanid, rfc4675::lookup_all_egress_vlanid) },
    Row { name: "rfc4675::ingress_filters", num: 57, del: rfc4675::delete_ingress_filters, acc: Acc::U32(rfc4675::add_ingress_filters, rfc4675::lookup_ingress_filters, rfc4675::lookup_all_ingress_filters) },
    Row { name: "rfc4675::egress_vlan_name", num: 58, del: rfc4675::delete_egress_vlan_name, acc: Acc::Str(rfc4675::add_egress_vlan_name, rfc4675::lookup_egress_vlan_name, rfc4675::lookup_all_egress_vlan_name) },
    Row { name: "rfc4675::user_priority_table", num: 59, del: rfc4675::delete_user_priority_table, acc: Acc::Bytes(rfc4675::add_user_priority_table, rfc4675::lookup_user_priority_table, rfc4675::lookup_all_user_priority_table) },
    Row { name: "rfc4818::delegated_ipv6_prefix", num: 123, del: rfc4818::delete_delegated_ipv6_prefix, acc: Acc::P6(rfc4818::add_delegated_ipv6_prefix, rfc4818::lookup_delegated_ipv6_prefix, rfc4818::lookup_all_delegated_ipv6_prefix) },
    Row { name: "rfc4849::nas_filter_rule", num: 92, del: rfc4849::delete_nas_filter_rule, acc: Acc::Str(rfc4849::add_nas_filter_rule, rfc4849::lookup_nas_filter_rule, rfc4849::lookup_all_nas_filter_rule) },
    Row { name: "rfc5090::digest_response", num: 103, del: rfc5090::delete_digest_response, acc: Acc::Str(rfc5090::add_digest_response, rfc5090::lookup_digest_response, rfc5090::lookup_all_digest_response) },
    Row { name: "rfc5090::digest_realm", num: 104, del: rfc5090::delete_digest_realm, acc: Acc::Str(rfc5090::add_digest_realm, rfc5090::lookup_digest_realm, rfc5090::lookup_all_digest_realm) },
    Row { name: "rfc5090::digest_nonce", num: 105, del: rfc5090::delete_digest_nonce, acc: Acc::Str(rfc5090::add_digest_nonce, rfc5090::lookup_digest_nonce, rfc5090::lookup_all_digest_nonce) },
    Row { name: "rfc5090::digest_response_auth", num: 106, del: rfc5090::delete_digest_response_auth, acc: Acc::Str(rfc5090::add_digest_response_auth, rfc5090::lookup_digest_response_auth, rfc5090::lookup_all_digest_response_auth) },
    Row { name: "rfc5090::digest_nextnonce", num: 107, del: rfc5090::delete_digest_nextnonce, acc: Acc::Str(rfc5090::add_digest_nextnonce, rfc5090::lookup_digest_nextnonce, rfc5090::lookup_all_digest_nextnonce) },
    Row { name: "rfc5090::digest_method", num: 108, del: rfc5090::delete_digest_method, acc: Acc::Str(rfc5090::add_digest_method, rfc5090::lookup_digest_method, rfc5090::lookup_all_digest_method) },
    Row { name: "rfc5090::digest_uri", num: 109, del: rfc5090::delete_digest_uri, acc: Acc::Str(rfc5090::add_digest_uri, rfc5090::lookup_digest_uri, rfc5090::lookup_all_digest_uri) },
    Row { name: "rfc5090::digest_qop", num: 110, del: rfc5090::delete_digest_qop, acc: Acc::Str(rfc5090::add_digest_qop, rfc5090::lookup_digest_qop, rfc5090::lookup_all_digest_qop) },
    Row { name: "rfc5090::digest_algorithm", num: 111, del: rfc5090::delete_digest_algorithm, acc: Acc::Str(rfc5090::add_digest_algorithm, rfc5090::lookup_digest_algorithm, rfc5090::lookup_all_digest_algorithm) },
    Row { name: "rfc5090::digest_entity_body_hash", num: 112, del: rfc5090::delete_digest_entity_body_hash, acc: Acc::Str(rfc5090::add_digest_entity_body_hash, rfc5090::lookup_digest_entity_body_hash, rfc5090::lookup_all_digest_entity_body_hash) },
    Row { name: "rfc5090::digest_c_nonce", num: 113, del: rfc5090::delete_digest_c_nonce, acc: Acc::Str(rfc5090::add_digest_c_nonce, rfc5090::lookup_digest_c_nonce, rfc5090::lookup_all_digest_c_nonce) },
    Row { name: "rfc5090::digest_nonce_count", num: 114, del: rfc5090::delete_digest_nonce_count, acc: Acc::Str(rfc5090::add_digest_nonce_count, rfc5090::lookup_digest_nonce_count, rfc5090::lookup_all_digest_nonce_count) },
    Row { name: "rfc5090::digest_username", num: 115, del: rfc5090::delete_digest_username, acc: Acc::Str(rfc5090::add_digest_username, rfc5090::lookup_digest_username, rfc5090::lookup_all_digest_username) },
    Row { name: "rfc5090::digest_opaque", num: 116, del: rfc5090::delete_digest_opaque, acc: Acc::Str(rfc5090::add_digest_opaque, rfc5090::lookup_digest_opaque, rfc5090::lookup_all_digest_opaque) },
    Row { name: "rfc5090::digest_auth_param", num: 117, del: rfc5090::delete_digest_auth_param, acc: Acc::Str(rfc5090::add_digest_auth_param, rfc5090::lookup_digest_auth_param, rfc5090::lookup_all_digest_auth_param) },
    Row { name: "rfc5090::digest_aka_auts", num: 118, del: rfc5090::delete_digest_aka_auts, acc: Acc::Str(rfc5090::add_digest_aka_auts, rfc5090::lookup_digest_aka_auts, rfc5090::lookup_all_digest_aka_auts) },
    Row { name: "rfc5090::digest_domain", num: 119, del: rfc5090::delete_digest_domain, acc: Acc::Str(rfc5090::add_digest_domain, rfc5090::lookup_digest_domain, rfc5090::lookup_all_digest_domain) },
    Row { name: "rfc5090::digest_stale", num: 120, del: rfc5090::delete_digest_stale, acc: Acc::Str(rfc5090::add_digest_stale, rfc5090::lookup_digest_stale, rfc5090::lookup_all_digest_stale) },
    Row { name: "rfc5090::digest_ha1", num: 121, del: rfc5090::delete_digest_ha1, acc: Acc::Str(rfc5090::add_digest_ha1, rfc5090::lookup_digest_ha1, rfc5090::lookup_all_digest_ha1) },
    Row { name: "rfc5090::sip_aor", num: 122, del: rfc5090::delete_sip_aor, acc: Acc::Str(rfc5090::add_sip_aor, rfc5090::lookup_sip_aor, rfc5090::lookup_all_sip_aor) },
    Row { name: "rfc5607::framed_management", num: 133, del: rfc5607::delete_framed_management, acc: Acc::U32(rfc5607::add_framed_management, rfc5607::lookup_framed_management, rfc5607::lookup_all_framed_management) },
    Row { name: "rfc5607::management_transport_protection", num: 134, del: rfc5607::delete_management_transport_protection, acc: Acc::U32(rfc5607::add_management_transport_protection, rfc5607::lookup_management_transport_protection, rfc5607::lookup_all_management_transport_protection) },
    Row { name: "rfc5607::management_policy_id", num: 135, del: rfc5607::delete_management_policy_id, acc: Acc::Str(rfc5607::add_management_policy_id, rfc5607::lookup_management_policy_id, rfc5607::lookup_all_management_policy_id) },
    Row { name: "rfc5607::management_privilege_level", num: 136, del: rfc5607::delete_management_privilege_level, acc: Acc::U32(rfc5607::add_management_privilege_level, rfc5607::lookup_management_privilege_level, rfc5607::lookup_all_management_privilege_level) },
    Row { name: "rfc5904::pkm_ss_cert", num: 137, del: rfc5904::delete_pkm_ss_cert, acc: Acc::Cat(rfc5904::add_pkm_ss_cert, rfc5904::lookup_pkm_ss_cert) },
    Row { name: "rfc5904::pkm_ca_cert", num: 138, del: rfc5904::delete_pkm_ca_cert, acc: Acc::Cat(rfc5904::add_pkm_ca_cert, rfc5904::lookup_pkm_ca_cert) },
    Row { name: "rfc5904::pkm_config_settings", num: 139, del: rfc5904::delete_pkm_config_settings, acc: Acc::Bytes(rfc5904::add_pkm_config_settings, rfc5904::lookup_pkm_config_settings, rfc5904::lookup_all_pkm_config_settings) },
    Row { name: "rfc5904::pkm_cryptosuite_list", num: 140, del: rfc5904::delete_pkm_cryptosuite_list, acc: Acc::Bytes(rfc5904::add_pkm_cryptosuite_list, rfc5904::lookup_pkm_cryptosuite_list, rfc5904::lookup_all_pkm_cryptosuite_list) },
    Row { name: "rfc5904::pkm_said", num: 141, del: rfc5904::delete_pkm_said, acc: Acc::U16(rfc5904::add_pkm_said, rfc5904::lookup_pkm_said, rfc5904::lookup_all_pkm_said) },
    Row { name: "rfc5904::pkm_sa_descriptor", num: 142, del: rfc5904::delete_pkm_sa_descriptor, acc: Acc::Bytes(rfc5904::add_pkm_sa_descriptor, rfc5904::lookup_pkm_sa_descriptor, rfc5904::lookup_all_pkm_sa_descriptor) },
    Row { name: "rfc5904::pkm_auth_key", num: 143, del: rfc5904::delete_pkm_auth_key, acc: Acc::Bytes(rfc5904::add_pkm_auth_key, rfc5904::lookup_pkm_auth_key, rfc5904::lookup_all_pkm_auth_key) },
    Row { name: "rfc6519::ds_lite_tunnel_name", num: 144, del: rfc6519::delete_ds_lite_tunnel_name, acc: Acc::Str(rfc6519::add_ds_lite_tunnel_name, rfc6519::lookup_ds_lite_tunnel_name, rfc6519::lookup_all_ds_lite_tunnel_name) },
    Row { name: "rfc6572::mobile_node_identifier", num: 145, del: rfc6572::delete_mobile_node_identifier, acc: Acc::Bytes(rfc6572::add_mobile_node_identifier, rfc6572::lookup_mobile_node_identifier, rfc6572::lookup_all_mobile_node_identifier) },
    Row { name: "rfc6572::service_selection", num: 146, del: rfc6572::delete_service_selection, acc: Acc::Str(rfc6572::add_service_selection, rfc6572::lookup_service_selection, rfc6572::lookup_all_service_selection) },
    Row { name: "rfc6572::pmip6_home_lma_ipv6_address", num: 147, del: rfc6572::delete_pmip6_home_lma_ipv6_address, acc: Acc::V6(rfc6572::add_pmip6_home_lma_ipv6_address, rfc6572::lookup_pmip6_home_lma_ipv6_address, rfc6572::lookup_all_pmip6_home_lma_ipv6_address) },
    Row { name: "rfc6572::pmip6_visited_lma_ipv6_address", num: 148, del: rfc6572::delete_pmip6_visited_lma_ipv6_address, acc: Acc::V6(rfc6572::add_pmip6_visited_lma_ipv6_address, rfc6572::lookup_pmip6_visited_lma_ipv6_address, rfc6572::lookup_all_pmip6_visited_lma_ipv6_address) },
    Row { name: "rfc6572::pmip6_home_lma_ipv4_address", num: 149, del: rfc6572::delete_pmip6_home_lma_ipv4_address, acc: Acc::V4(rfc6572::add_pmip6_home_lma_ipv4_address, rfc6572::lookup_pmip6_home_lma_ipv4_address, rfc6572::lookup_all_pmip6_home_lma_ipv4_address) },
    Row { name: "rfc6572::pmip6_visited_lma_ipv4_address", num: 150, del: rfc6572::delete_pmip6_visited_lma_ipv4_address, acc: Acc::V4(rfc6572::add_pmip6_visited_lma_ipv4_address, rfc6572::lookup_pmip6_visited_lma_ipv4_address, rfc6572::lookup_all_pmip6_visited_lma_ipv4_address) },
    Row { name: "rfc6572::pmip6_home_hn_prefix", num: 151, del: rfc6572::delete_pmip6_home_hn_prefix, acc: Acc::P6(rfc6572::add_pmip6_home_hn_prefix, rfc6572::lookup_pmip6_home_hn_prefix, rfc6572::lookup_all_pmip6_home_hn_prefix) },
    Row { name: "rfc6572::pmip6_visited_hn_prefix", num: 152, del: rfc6572::delete_pmip6_visited_hn_prefix, acc: Acc::P6(rfc6572::add_pmip6_visited_hn_prefix, rfc6572::lookup_pmip6_visited_hn_prefix, rfc6572::lookup_all_pmip6_visited_hn_prefix) },
    Row { name: "rfc6572::pmip6_home_interface_id", num: 153, del: rfc6572::delete_pmip6_home_interface_id, acc: Acc::Fixed(8, rfc6572::add_pmip6_home_interface_id, rfc6572::lookup_pmip6_home_interface_id, rfc6572::lookup_all_pmip6_home_interface_id) },
    Row { name: "rfc6572::pmip6_visited_interface_id", num: 154, del: rfc6572::delete_pmip6_visited_interface_id, acc: Acc::Fixed(8, rfc6572::add_pmip6_visited_interface_id, rfc6572::lookup_pmip6_visited_interface_id, rfc6572::lookup_all_pmip6_visited_interface_id) },
    Row { name: "rfc6572::pmip6_home_ipv4_ho_a", num: 155, del: rfc6572::delete_pmip6_home_ipv4_ho_a, acc: Acc::P4(rfc6572::add_pmip6_home_ipv4_ho_a, rfc6572::lookup_pmip6_home_ipv4_ho_a, rfc6572::lookup_all_pmip6_home_ipv4_ho_a) },
    Row { name: "rfc6572::pmip6_visited_ipv4_ho_a", num: 156, del: rfc6572::delete_pmip6_visited_ipv4_ho_a, acc: Acc::P4(rfc6572::add_pmip6_visited_ipv4_ho_a, rfc6572::lookup_pmip6_visited_ipv4_ho_a, rfc6572::lookup_all_pmip6_visited_ipv4_ho_a) },
    Row { name: "rfc6572::pmip6_home_dhcp4_server_address", num: 157, del: rfc6572::delete_pmip6_home_dhcp4_server_address, acc: Acc::V4(rfc6572::add_pmip6_home_dhcp4_server_address, rfc6572::lookup_pmip6_home_dhcp4_server_address, rfc6572::lookup_all_pmip6_home_dhcp4_server_address) },
    Row { name: "rfc6572::pmip6_visited_dhcp4_server_address", num: 158, del: rfc6572::delete_pmip6_visited_dhcp4_server_address, acc: Acc::V4(rfc6572::add_pmip6_visited_dhcp4_server_address, rfc6572::lookup_pmip6_visited_dhcp4_server_address, rfc6572::lookup_all_pmip6_visited_dhcp4_server_address) },
    Row { name: "rfc6572::pmip6_home_dhcp6_server_address", num: 159, del: rfc6572::delete_pmip6_home_dhcp6_server_address, acc: Acc::V6(rfc6572::add_pmip6_home_dhcp6_server_address, rfc6572::lookup_pmip6_home_dhcp6_server_address, rfc6572::lookup_all_pmip6_home_dhcp6_server_address) },
    Row { name: "rfc6572::pmip6_visited_dhcp6_server_address", num: 160, del: rfc6572::delete_pmip6_visited_dhcp6_server_address, acc: Acc::V6(rfc6572::add_pmip6_visited_dhcp6_server_address, rfc6572::lookup_pmip6_visited_dhcp6_server_address, rfc6572::lookup_all_pmip6_visited_dhcp6_server_address) },
    Row { name: "rfc6572::pmip6_home_ipv4_gateway", num: 161, del: rfc6572::delete_pmip6_home_ipv4_gateway, acc: Acc::V4(rfc6572::add_pmip6_home_ipv4_gateway, rfc6572::lookup_pmip6_home_ipv4_gateway, rfc6572::lookup_all_pmip6_home_ipv4_gateway) },
    Row { name: "rfc6572::pmip6_visited_ipv4_gateway", num: 162, del: rfc6572::delete_pmip6_visited_ipv4_gateway, acc: Acc::V4(rfc6572::add_pmip6_visited_ipv4_gateway, rfc6572::lookup_pmip6_visited_ipv4_gateway, rfc6572::lookup_all_pmip6_visited_ipv4_gateway) },
    Row { name: "rfc6677::eap_lower_layer", num: 163, del: rfc6677::delete_eap_lower_layer, acc: Acc::U32(rfc6677::add_eap_lower_layer, rfc6677::lookup_eap_lower_layer, rfc6677::lookup_all_eap_lower_layer) },
    Row { name: "rfc6911::framed_ipv6_address", num: 168, del: rfc6911::delete_framed_ipv6_address, acc: Acc::V6(rfc6911::add_framed_ipv6_address, rfc6911::lookup_framed_ipv6_address, rfc6911::lookup_all_framed_ipv6_address) },
    Row { name: "rfc6911::dns_server_ipv6_address", num: 169, del: rfc6911::delete_dns_server_ipv6_address, acc: Acc::V6(rfc6911::add_dns_server_ipv6_address, rfc6911::lookup_dns_server_ipv6_address, rfc6911::lookup_all_dns_server_ipv6_address) },
    Row { name: "rfc6911::route_ipv6_information", num: 170, del: rfc6911::delete_route_ipv6_information, acc: Acc::P6(rfc6911::add_route_ipv6_information, rfc6911::lookup_route_ipv6_information, rfc6911::lookup_all_route_ipv6_information) },
    Row { name: "rfc6911::delegated_ipv6_prefix_pool", num: 171, del: rfc6911::delete_delegated_ipv6_prefix_pool, acc: Acc::Str(rfc6911::add_delegated_ipv6_prefix_pool, rfc6911::lookup_delegated_ipv6_prefix_pool, rfc6911::lookup_all_delegated_ipv6_prefix_pool) },
    Row { name: "rfc6911::stateful_ipv6_address_pool", num: 172, del: rfc6911::delete_stateful_ipv6_address_pool, acc: Acc::Str(rfc6911::add_stateful_ipv6_address_pool, rfc6911::lookup_stateful_ipv6_address_pool, rfc6911::lookup_all_stateful_ipv6_address_pool) },
    Row { name: "rfc7055::gss_acceptor_service_name", num: 164, del: rfc7055::delete_gss_acceptor_service_name, acc: Acc::Str(rfc7055::add_gss_acceptor_service_name, rfc7055::lookup_gss_acceptor_service_name, rfc7055::lookup_all_gss_acceptor_service_name) },
    Row { name: "rfc7055::gss_acceptor_host_name", num: 165, del: rfc7055::delete_gss_acceptor_host_name, acc: Acc::Str(rfc7055::add_gss_acceptor_host_name, rfc7055::lookup_gss_acceptor_host_name, rfc7055::lookup_all_gss_acceptor_host_name) },
    Row { name: "rfc7055::gss_acceptor_service_specifics", num: 166, del: rfc7055::delete_gss_acceptor_service_specifics, acc: Acc::Str(rfc7055::add_gss_acceptor_service_specifics, rfc7055::lookup_gss_acceptor_service_specifics, rfc7055::lookup_all_gss_acceptor_service_specifics) },
    Row { name: "rfc7055::gss_acceptor_realm_name", num: 167, del: rfc7055::delete_gss_acceptor_realm_name, acc: Acc::Str(rfc7055::add_gss_acceptor_realm_name, rfc7055::lookup_gss_acceptor_realm_name, rfc7055::lookup_all_gss_acceptor_realm_name) },
    Row { name: "rfc7155::originating_line_info", num: 94, del: rfc7155::delete_originating_line_info, acc: Acc::Fixed(2, rfc7155::add_originating_line_info, rfc7155::lookup_originating_line_info, rfc7155::lookup_all_originating_line_info) },
] }
pub fn consts() -> Vec<(&'static str, u64, u64)> { vec![
    ("rfc2865::USER_NAME_TYPE", rfc2865::USER_NAME_TYPE as u64, 1),
    ("rfc2865::USER_PASSWORD_TYPE", rfc2865::USER_PASSWORD_TYPE as u64, 2),
    ("rfc2865::CHAP_PASSWORD_TYPE", rfc2865::CHAP_PASSWORD_TYPE as u64, 3),
    ("rfc2865::NAS_IP_ADDRESS_TYPE", rfc2865::NAS_IP_ADDRESS_TYPE as u64, 4),
    ("rfc2865::NAS_PORT_TYPE", rfc2865::NAS_PORT_TYPE as u64, 5),
    ("rfc2865::SERVICE_TYPE_TYPE", rfc2865::SERVICE_TYPE_TYPE as u64, 6),
    ("rfc2865::FRAMED_PROTOCOL_TYPE", rfc2865::FRAMED_PROTOCOL_TYPE as u64, 7),
    ("rfc2865::FRAMED_IP_ADDRESS_TYPE", rfc2865::FRAMED_IP_ADDRESS_TYPE as u64, 8),
    ("rfc2865::FRAMED_IP_NETMASK_TYPE", rfc2865::FRAMED_IP_NETMASK_TYPE as u64, 9),
    ("rfc2865::FRAMED_ROUTING_TYPE", rfc2865::FRAMED_ROUTING_TYPE as u64, 10),
    ("rfc2865::FILTER_ID_TYPE", rfc2865::FILTER_ID_TYPE as u64, 11),
    ("rfc2865::FRAMED_MTU_TYPE", rfc2865::FRAMED_MTU_TYPE as u64, 12),
    ("rfc2865::FRAMED_COMPRESSION_TYPE", rfc2865::FRAMED_COMPRESSION_TYPE as u64, 13),
    ("rfc2865::LOGIN_IP_HOST_TYPE", rfc2865::LOGIN_IP_HOST_TYPE as u64, 14),
    ("rfc2865::LOGIN_SERVICE_TYPE", rfc2865::LOGIN_SERVICE_TYPE as u64, 15),
    ("rfc2865::LOGIN_TCP_PORT_TYPE", rfc2865::LOGIN_TCP_PORT_TYPE as u64, 16),
    ("rfc2865::REPLY_MESSAGE_TYPE", rfc2865::REPLY_MESSAGE_TYPE as u64, 18),
    ("rfc2865::CALLBACK_NUMBER_TYPE", rfc2865::CALLBACK_NUMBER_TYPE as u64, 19),
    ("rfc2865::CALLBACK_ID_TYPE", rfc2865::CALLBACK_ID_TYPE as u64, 20),
    ("rfc2865::FRAMED_ROUTE_TYPE", rfc2865::FRAMED_ROUTE_TYPE as u64, 22),
    ("rfc2865::FRAMED_IPX_NETWORK_TYPE", rfc2865::FRAMED_IPX_NETWORK_TYPE as u64, 23),
    ("rfc2865::STATE_TYPE", rfc2865::STATE_TYPE as u64, 24),
    ("rfc2865::CLASS_TYPE", rfc2865::CLASS_TYPE as u64, 25),
    ("rfc2865::VENDOR_SPECIFIC_TYPE", rfc2865::VENDOR_SPECIFIC_TYPE as u64, 26),
    ("rfc2865::SESSION_TIMEOUT_TYPE", rfc2865::SESSION_TIMEOUT_TYPE as u64, 27),
    ("rfc2865::IDLE_TIMEOUT_TYPE", rfc2865::IDLE_TIMEOUT_TYPE as u64, 28),
    ("rfc2865::TERMINATION_ACTION_TYPE", rfc2865::TERMINATION_ACTION_TYPE as u64, 29),
    ("rfc2865::CALLED_STATION_ID_TYPE", rfc2865::CALLED_STATION_ID_TYPE as u64, 30),
    ("rfc2865::CALLING_STATION_ID_TYPE", rfc2865::CALLING_STATION_ID_TYPE as u64, 31),
    ("rfc2865::NAS_IDENTIFIER_TYPE", rfc2865::NAS_IDENTIFIER_TYPE as u64, 32),
    ("rfc2865::PROXY_STATE_TYPE", rfc2865::PROXY_STATE_TYPE as u64, 33),
    ("rfc2865::LOGIN_LAT_SERVICE_TYPE", rfc2865::LOGIN_LAT_SERVICE_TYPE as u64, 34),
    ("rfc2865::LOGIN_LAT_NODE_TYPE", rfc2865::LOGIN_LAT_NODE_TYPE as u64, 35),
    ("rfc2865::LOGIN_LAT_GROUP_TYPE", rfc2865::LOGIN_LAT_GROUP_TYPE as u64, 36),
    ("rfc2865::FRAMED_APPLE_TALK_LINK_TYPE", rfc2865::FRAMED_APPLE_TALK_LINK_TYPE as u64, 37),
    ("rfc2865::FRAMED_APPLE_TALK_NETWORK_TYPE", rfc2865::FRAMED_APPLE_TALK_NETWORK_TYPE as u64, 38),
    ("rfc2865::FRAMED_APPLE_TALK_ZONE_TYPE", rfc2865::FRAMED_APPLE_TALK_ZONE_TYPE as u64, 39),
    ("rfc2865::CHAP_CHALLENGE_TYPE", rfc2865::CHAP_CHALLENGE_TYPE as u64, 60),
    ("rfc2865::NAS_PORT_TYPE_TYPE", rfc2865::NAS_PORT_TYPE_TYPE as u64, 61),
    ("rfc2865::PORT_LIMIT_TYPE", rfc2865::PORT_LIMIT_TYPE as u64, 62),
    ("rfc2865::LOGIN_LAT_PORT_TYPE", rfc2865::LOGIN_LAT_PORT_TYPE as u64, 63),
    ("rfc2866::ACCT_STATUS_TYPE_TYPE", rfc2866::ACCT_STATUS_TYPE_TYPE as u64, 40),
    ("rfc2866::ACCT_DELAY_TIME_TYPE", rfc2866::ACCT_DELAY_TIME_TYPE as u64, 41),
    ("rfc2866::ACCT_INPUT_OCTETS_TYPE", rfc2866::ACCT_INPUT_OCTETS_TYPE as u64, 42),
    ("rfc2866::ACCT_OUTPUT_OCTETS_TYPE", rfc2866::ACCT_OUTPUT_OCTETS_TYPE as u64, 43),
    ("rfc2866::ACCT_SESSION_ID_TYPE", rfc2866::ACCT_SESSION_ID_TYPE as u64, 44),
    ("rfc2866::ACCT_AUTHENTIC_TYPE", rfc2866::ACCT_AUTHENTIC_TYPE as u64, 45),
    ("rfc2866::ACCT_SESSION_TIME_TYPE", rfc2866::ACCT_SESSION_TIME_TYPE as u64, 46),
    ("rfc2866::ACCT_INPUT_PACKETS_TYPE", rfc2866::ACCT_INPUT_PACKETS_TYPE as u64, 47),
    ("rfc2866::ACCT_OUTPUT_PACKETS_TYPE", rfc2866::ACCT_OUTPUT_PACKETS_TYPE as u64, 48),
    ("rfc2866::ACCT_TERMINATE_CAUSE_TYPE", rfc2866::ACCT_TERMINATE_CAUSE_TYPE as u64, 49),
    ("rfc2866::ACCT_MULTI_SESSION_ID_TYPE", rfc2866::ACCT_MULTI_SESSION_ID_TYPE as u64, 50),
    ("rfc2866::ACCT_LINK_COUNT_TYPE", rfc2866::ACCT_LINK_COUNT_TYPE as u64, 51),
    ("rfc2867::ACCT_TUNNEL_CONNECTION_TYPE", rfc2867::ACCT_TUNNEL_CONNECTION_TYPE as u64, 68),
    ("rfc2867::ACCT_TUNNEL_PACKETS_LOST_TYPE", rfc2867::ACCT_TUNNEL_PACKETS_LOST_TYPE as u64, 86),
    ("rfc2868::TUNNEL_TYPE_TYPE", rfc2868::TUNNEL_TYPE_TYPE as u64, 64),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_TYPE", rfc2868::TUNNEL_MEDIUM_TYPE_TYPE as u64, 65),
    ("rfc2868::TUNNEL_CLIENT_ENDPOINT_TYPE", rfc2868::TUNNEL_CLIENT_ENDPOINT_TYPE as u64, 66),
    ("rfc2868::TUNNEL_SERVER_ENDPOINT_TYPE", rfc2868::TUNNEL_SERVER_ENDPOINT_TYPE as u64, 67),
    ("rfc2868::TUNNEL_PASSWORD_TYPE", rfc2868::TUNNEL_PASSWORD_TYPE as u64, 69),
    ("rfc2868::TUNNEL_PRIVATE_GROUP_ID_TYPE", rfc2868::TUNNEL_PRIVATE_GROUP_ID_TYPE as u64, 81),
    ("rfc2868::TUNNEL_ASSIGNMENT_ID_TYPE", rfc2868::TUNNEL_ASSIGNMENT_ID_TYPE as u64, 82),
    ("rfc2868::TUNNEL_PREFERENCE_TYPE", rfc2868::TUNNEL_PREFERENCE_TYPE as u64, 83),
    ("rfc2868::TUNNEL_CLIENT_AUTH_ID_TYPE", rfc2868::TUNNEL_CLIENT_AUTH_ID_TYPE as u64, 90),
    ("rfc2868::TUNNEL_SERVER_AUTH_ID_TYPE", rfc2868::TUNNEL_SERVER_AUTH_ID_TYPE as u64, 91),
    ("rfc2869::ACCT_INPUT_GIGAWORDS_TYPE", rfc2869::ACCT_INPUT_GIGAWORDS_TYPE as u64, 52),
    ("rfc2869::ACCT_OUTPUT_GIGAWORDS_TYPE", rfc2869::ACCT_OUTPUT_GIGAWORDS_TYPE as u64, 53),
    ("rfc2869::EVENT_TIMESTAMP_TYPE", rfc2869::EVENT_TIMESTAMP_TYPE as u64, 55),
    ("rfc2869::ARAP_PASSWORD_TYPE", rfc2869::ARAP_PASSWORD_TYPE as u64, 70),
    ("rfc2869::ARAP_FEATURES_TYPE", rfc2869::ARAP_FEATURES_TYPE as u64, 71),
    ("rfc2869::ARAP_ZONE_ACCESS_TYPE", rfc2869::ARAP_ZONE_ACCESS_TYPE as u64, 72),
    ("rfc2869::ARAP_SECURITY_TYPE", rfc2869::ARAP_SECURITY_TYPE as u64, 73),
    ("rfc2869::ARAP_SECURITY_DATA_TYPE", rfc2869::ARAP_SECURITY_DATA_TYPE as u64, 74),
    ("rfc2869::PASSWORD_RETRY_TYPE", rfc2869::PASSWORD_RETRY_TYPE as u64, 75),
    ("rfc2869::PROMPT_TYPE", rfc2869::PROMPT_TYPE as u64, 76),
    ("rfc2869::CONNECT_INFO_TYPE", rfc2869::CONNECT_INFO_TYPE as u64, 77),
    ("rfc2869::CONFIGURATION_TOKEN_TYPE", rfc2869::CONFIGURATION_TOKEN_TYPE as u64, 78),
    ("rfc2869::EAP_MESSAGE_TYPE", rfc2869::EAP_MESSAGE_TYPE as u64, 79),
    ("rfc2869::MESSAGE_AUTHENTICATOR_TYPE", rfc2869::MESSAGE_AUTHENTICATOR_TYPE as u64, 80),
    ("rfc2869::ARAP_CHALLENGE_RESPONSE_TYPE", rfc2869::ARAP_CHALLENGE_RESPONSE_TYPE as u64, 84),
    ("rfc2869::ACCT_INTERIM_INTERVAL_TYPE", rfc2869::ACCT_INTERIM_INTERVAL_TYPE as u64, 85),
    ("rfc2869::NAS_PORT_ID_TYPE", rfc2869::NAS_PORT_ID_TYPE as u64, 87),
    ("rfc2869::FRAMED_POOL_TYPE", rfc2869::FRAMED_POOL_TYPE as u64, 88),
    ("rfc3162::NAS_IPV6_ADDRESS_TYPE", rfc3162::NAS_IPV6_ADDRESS_TYPE as u64, 95),
    ("rfc3162::FRAMED_INTERFACE_ID_TYPE", rfc3162::FRAMED_INTERFACE_ID_TYPE as u64, 96),
    ("rfc3162::FRAMED_IPV6_PREFIX_TYPE", rfc3162::FRAMED_IPV6_PREFIX_TYPE as u64, 97),
    ("rfc3162::LOGIN_IPV6_HOST_TYPE", rfc3162::LOGIN_IPV6_HOST_TYPE as u64, 98),
    ("rfc3162::FRAMED_IPV6_ROUTE_TYPE", rfc3162::FRAMED_IPV6_ROUTE_TYPE as u64, 99),
    ("rfc3162::FRAMED_IPV6_POOL_TYPE", rfc3162::FRAMED_IPV6_POOL_TYPE as u64, 100),
    ("rfc3576::ERROR_CAUSE_TYPE", rfc3576::ERROR_CAUSE_TYPE as u64, 101),
    ("rfc4072::EAP_KEY_NAME_TYPE", rfc4072::EAP_KEY_NAME_TYPE as u64, 102),
    ("rfc4372::CHARGEABLE_USER_IDENTITY_TYPE", rfc4372::CHARGEABLE_USER_IDENTITY_TYPE as u64, 89),
    ("rfc4675::EGRESS_VLANID_TYPE", rfc4675::EGRESS_VLANID_TYPE as u64, 56),
    ("rfc4675::INGRESS_FILTERS_TYPE", rfc4675::INGRESS_FILTERS_TYPE as u64, 57),
    ("rfc4675::EGRESS_VLAN_NAME_TYPE", rfc4675::EGRESS_VLAN_NAME_TYPE as u64, 58),
    ("rfc4675::USER_PRIORITY_TABLE_TYPE", rfc4675::USER_PRIORITY_TABLE_TYPE as u64, 59),
    ("rfc4818::DELEGATED_IPV6_PREFIX_TYPE", rfc4818::DELEGATED_IPV6_PREFIX_TYPE as u64, 123),
    ("rfc4849::NAS_FILTER_RULE_TYPE", rfc4849::NAS_FILTER_RULE_TYPE as u64, 92),
    ("rfc5090::DIGEST_RESPONSE_TYPE", rfc5090::DIGEST_RESPONSE_TYPE as u64, 103),
    ("rfc5090::DIGEST_REALM_TYPE", rfc5090::DIGEST_REALM_TYPE as u64, 104),
    ("rfc5090::DIGEST_NONCE_TYPE", rfc5090::DIGEST_NONCE_TYPE as u64, 105),
    ("rfc5090::DIGEST_RESPONSE_AUTH_TYPE", rfc5090::DIGEST_RESPONSE_AUTH_TYPE as u64, 106),
    ("rfc5090::DIGEST_NEXTNONCE_TYPE", rfc5090::DIGEST_NEXTNONCE_TYPE as u64, 107),
    ("rfc5090::DIGEST_METHOD_TYPE", rfc5090::DIGEST_METHOD_TYPE as u64, 108),
    ("rfc5090::DIGEST_URI_TYPE", rfc5090::DIGEST_URI_TYPE as u64, 109),
    ("rfc5090::DIGEST_QOP_TYPE", rfc5090::DIGEST_QOP_TYPE as u64, 110),
    ("rfc5090::DIGEST_ALGORITHM_TYPE", rfc5090::DIGEST_ALGORITHM_TYPE as u64, 111),
    ("rfc5090::DIGEST_ENTITY_BODY_HASH_TYPE", rfc5090::DIGEST_ENTITY_BODY_HASH_TYPE as u64, 112),
    ("rfc5090::DIGEST_C_NONCE_TYPE", rfc5090::DIGEST_C_NONCE_TYPE as u64, 113),
    ("rfc5090::DIGEST_NONCE_COUNT_TYPE", rfc5090::DIGEST_NONCE_COUNT_TYPE as u64, 114),
    ("rfc5090::DIGEST_USERNAME_TYPE", rfc5090::DIGEST_USERNAME_TYPE as u64, 115),
    ("rfc5090::DIGEST_OPAQUE_TYPE", rfc5090::DIGEST_OPAQUE_TYPE as u64, 116),
    ("rfc5090::DIGEST_AUTH_PARAM_TYPE", rfc5090::DIGEST_AUTH_PARAM_TYPE as u64, 117),
    ("rfc5090::DIGEST_AKA_AUTS_TYPE", rfc5090::DIGEST_AKA_AUTS_TYPE as u64, 118),
    ("rfc5090::DIGEST_DOMAIN_TYPE", rfc5090::DIGEST_DOMAIN_TYPE as u64, 119),
    ("rfc5090::DIGEST_STALE_TYPE", rfc5090::DIGEST_STALE_TYPE as u64, 120),
    ("rfc5090::DIGEST_HA1_TYPE", rfc5090::DIGEST_HA1_TYPE as u64, 121),
    ("rfc5090::SIP_AOR_TYPE", rfc5090::SIP_AOR_TYPE as u64, 122),
    ("rfc5607::FRAMED_MANAGEMENT_TYPE", rfc5607::FRAMED_MANAGEMENT_TYPE as u64, 133),
    ("rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_TYPE", rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_TYPE as u64, 134),
    ("rfc5607::MANAGEMENT_POLICY_ID_TYPE", rfc5607::MANAGEMENT_POLICY_ID_TYPE as u64, 135),
    ("rfc5607::MANAGEMENT_PRIVILEGE_LEVEL_TYPE", rfc5607::MANAGEMENT_PRIVILEGE_LEVEL_TYPE as u64, 136),
    ("rfc5904::PKM_SS_CERT_TYPE", rfc5904::PKM_SS_CERT_TYPE as u64, 137),
    ("rfc5904::PKM_CA_CERT_TYPE", rfc5904::PKM_CA_CERT_TYPE as u64, 138),
    ("rfc5904::PKM_CONFIG_SETTINGS_TYPE", rfc5904::PKM_CONFIG_SETTINGS_TYPE as u64, 139),
    ("rfc5904::PKM_CRYPTOSUITE_LIST_TYPE", rfc5904::PKM_CRYPTOSUITE_LIST_TYPE as u64, 140),
    ("rfc5904::PKM_SAID_TYPE", rfc5904::PKM_SAID_TYPE as u64, 141),
    ("rfc5904::PKM_SA_DESCRIPTOR_TYPE", rfc5904::PKM_SA_DESCRIPTOR_TYPE as u64, 142),
    ("rfc5904::PKM_AUTH_KEY_TYPE", rfc5904::PKM_AUTH_KEY_TYPE as u64, 143),
    ("rfc6519::DS_LITE_TUNNEL_NAME_TYPE", rfc6519::DS_LITE_TUNNEL_NAME_TYPE as u64, 144),
    ("rfc6572::MOBILE_NODE_IDENTIFIER_TYPE", rfc6572::MOBILE_NODE_IDENTIFIER_TYPE as u64, 145),
    ("rfc6572::SERVICE_SELECTION_TYPE", rfc6572::SERVICE_SELECTION_TYPE as u64, 146),
    ("rfc6572::PMIP6_HOME_LMA_IPV6_ADDRESS_TYPE", rfc6572::PMIP6_HOME_LMA_IPV6_ADDRESS_TYPE as u64, 147),
    ("rfc6572::PMIP6_VISITED_LMA_IPV6_ADDRESS_TYPE", rfc6572::PMIP6_VISITED_LMA_IPV6_ADDRESS_TYPE as u64, 148),
    ("rfc6572::PMIP6_HOME_LMA_IPV4_ADDRESS_TYPE", rfc6572::PMIP6_HOME_LMA_IPV4_ADDRESS_TYPE as u64, 149),
    ("rfc6572::PMIP6_VISITED_LMA_IPV4_ADDRESS_TYPE", rfc6572::PMIP6_VISITED_LMA_IPV4_ADDRESS_TYPE as u64, 150),
    ("rfc6572::PMIP6_HOME_HN_PREFIX_TYPE", rfc6572::PMIP6_HOME_HN_PREFIX_TYPE as u64, 151),
    ("rfc6572::PMIP6_VISITED_HN_PREFIX_TYPE", rfc6572::PMIP6_VISITED_HN_PREFIX_TYPE as u64, 152),
    ("rfc6572::PMIP6_HOME_INTERFACE_ID_TYPE", rfc6572::PMIP6_HOME_INTERFACE_ID_TYPE as u64, 153),
    ("rfc6572::PMIP6_VISITED_INTERFACE_ID_TYPE", rfc6572::PMIP6_VISITED_INTERFACE_ID_TYPE as u64, 154),
    ("rfc6572::PMIP6_HOME_IPV4_HO_A_TYPE", rfc6572::PMIP6_HOME_IPV4_HO_A_TYPE as u64, 155),
    ("rfc6572::PMIP6_VISITED_IPV4_HO_A_TYPE", rfc6572::PMIP6_VISITED_IPV4_HO_A_TYPE as u64, 156),
    ("rfc6572::PMIP6_HOME_DHCP4_SERVER_ADDRESS_TYPE", rfc6572::PMIP6_HOME_DHCP4_SERVER_ADDRESS_TYPE as u64, 157),
    ("rfc6572::PMIP6_VISITED_DHCP4_SERVER_ADDRESS_TYPE", rfc6572::PMIP6_VISITED_DHCP4_SERVER_ADDRESS_TYPE as u64, 158),
    ("rfc6572::PMIP6_HOME_DHCP6_SERVER_ADDRESS_TYPE", rfc6572::PMIP6_HOME_DHCP6_SERVER_ADDRESS_TYPE as u64, 159),
    ("rfc6572::PMIP6_VISITED_DHCP6_SERVER_ADDRESS_TYPE", rfc6572::PMIP6_VISITED_DHCP6_SERVER_ADDRESS_TYPE as u64, 160),
    ("rfc6572::PMIP6_HOME_IPV4_GATEWAY_TYPE", rfc6572::PMIP6_HOME_IPV4_GATEWAY_TYPE as u64, 161),
    ("rfc6572::PMIP6_VISITED_IPV4_GATEWAY_TYPE", rfc6572::PMIP6_VISITED_IPV4_GATEWAY_TYPE as u64, 162),
    ("rfc6677::EAP_LOWER_LAYER_TYPE", rfc6677::EAP_LOWER_LAYER_TYPE as u64, 163),
    ("rfc6911::FRAMED_IPV6_ADDRESS_TYPE", rfc6911::FRAMED_IPV6_ADDRESS_TYPE as u64, 168),
    ("rfc6911::DNS_SERVER_IPV6_ADDRESS_TYPE", rfc6911::DNS_SERVER_IPV6_ADDRESS_TYPE as u64, 169),
    ("rfc6911::ROUTE_IPV6_INFORMATION_TYPE", rfc6911::ROUTE_IPV6_INFORMATION_TYPE as u64, 170),
    ("rfc6911::DELEGATED_IPV6_PREFIX_POOL_TYPE", rfc6911::DELEGATED_IPV6_PREFIX_POOL_TYPE as u64, 171),
    ("rfc6911::STATEFUL_IPV6_ADDRESS_POOL_TYPE", rfc6911::STATEFUL_IPV6_ADDRESS_POOL_TYPE as u64, 172),
    ("rfc7055::GSS_ACCEPTOR_SERVICE_NAME_TYPE", rfc7055::GSS_ACCEPTOR_SERVICE_NAME_TYPE as u64, 164),
    ("rfc7055::GSS_ACCEPTOR_HOST_NAME_TYPE", rfc7055::GSS_ACCEPTOR_HOST_NAME_TYPE as u64, 165),
    ("rfc7055::GSS_ACCEPTOR_SERVICE_SPECIFICS_TYPE", rfc7055::GSS_ACCEPTOR_SERVICE_SPECIFICS_TYPE as u64, 166),
    ("rfc7055::GSS_ACCEPTOR_REALM_NAME_TYPE", rfc7055::GSS_ACCEPTOR_REALM_NAME_TYPE as u64, 167),
    ("rfc7155::ORIGINATING_LINE_INFO_TYPE", rfc7155::ORIGINATING_LINE_INFO_TYPE as u64, 94),
    ("rfc2865::FRAMED_COMPRESSION_NONE", rfc2865::FRAMED_COMPRESSION_NONE as u64, 0),
    ("rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP", rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP as u64, 1),
    ("rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION", rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION as u64, 2),
    ("rfc2865::FRAMED_COMPRESSION_STAC_LZS", rfc2865::FRAMED_COMPRESSION_STAC_LZS as u64, 3),
    ("rfc2865::FRAMED_PROTOCOL_PPP", rfc2865::FRAMED_PROTOCOL_PPP as u64, 1),
    ("rfc2865::FRAMED_PROTOCOL_SLIP", rfc2865::FRAMED_PROTOCOL_SLIP as u64, 2),
    ("rfc2865::FRAMED_PROTOCOL_ARAP", rfc2865::FRAMED_PROTOCOL_ARAP as u64, 3),
    ("rfc2865::FRAMED_PROTOCOL_GANDALF_SLML", rfc2865::FRAMED_PROTOCOL_GANDALF_SLML as u64, 4),
    ("rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP", rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP as u64, 5),
    ("rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS", rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS as u64, 6),
    ("rfc2865::FRAMED_ROUTING_NONE", rfc2865::FRAMED_ROUTING_NONE as u64, 0),
    ("rfc2865::FRAMED_ROUTING_BROADCAST", rfc2865::FRAMED_ROUTING_BROADCAST as u64, 1),
    ("rfc2865::FRAMED_ROUTING_LISTEN", rfc2865::FRAMED_ROUTING_LISTEN as u64, 2),
    ("rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN", rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN as u64, 3),
    ("rfc2865::LOGIN_SERVICE_TELNET", rfc2865::LOGIN_SERVICE_TELNET as u64, 0),
    ("rfc2865::LOGIN_SERVICE_RLOGIN", rfc2865::LOGIN_SERVICE_RLOGIN as u64, 1),
    ("rfc2865::LOGIN_SERVICE_TCP_CLEAR", rfc2865::LOGIN_SERVICE_TCP_CLEAR as u64, 2),
    ("rfc2865::LOGIN_SERVICE_PORT_MASTER", rfc2865::LOGIN_SERVICE_PORT_MASTER as u64, 3),
    ("rfc2865::LOGIN_SERVICE_LAT", rfc2865::LOGIN_SERVICE_LAT as u64, 4),
    ("rfc2865::LOGIN_SERVICE_X25_PAD", rfc2865::LOGIN_SERVICE_X25_PAD as u64, 5),
    ("rfc2865::LOGIN_SERVICE_X25_T3POS", rfc2865::LOGIN_SERVICE_X25_T3POS as u64, 6),
    ("rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET", rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET as u64, 8),
    ("rfc2865::LOGIN_TCP_PORT_TELNET", rfc2865::LOGIN_TCP_PORT_TELNET as u64, 23),
    ("rfc2865::LOGIN_TCP_PORT_RLOGIN", rfc2865::LOGIN_TCP_PORT_RLOGIN as u64, 513),
    ("rfc2865::LOGIN_TCP_PORT_RSH", rfc2865::LOGIN_TCP_PORT_RSH as u64, 514),
    ("rfc2865::NAS_PORT_TYPE_ASYNC", rfc2865::NAS_PORT_TYPE_ASYNC as u64, 0),
    ("rfc2865::NAS_PORT_TYPE_SYNC", rfc2865::NAS_PORT_TYPE_SYNC as u64, 1),
    ("rfc2865::NAS_PORT_TYPE_ISDN", rfc2865::NAS_PORT_TYPE_ISDN as u64, 2),
    ("rfc2865::NAS_PORT_TYPE_ISDN_V120", rfc2865::NAS_PORT_TYPE_ISDN_V120 as u64, 3),
    ("rfc2865::NAS_PORT_TYPE_ISDN_V110", rfc2865::NAS_PORT_TYPE_ISDN_V110 as u64, 4),
    ("rfc2865::NAS_PORT_TYPE_VIRTUAL", rfc2865::NAS_PORT_TYPE_VIRTUAL as u64, 5),
    ("rfc2865::NAS_PORT_TYPE_PIAFS", rfc2865::NAS_PORT_TYPE_PIAFS as u64, 6),
    ("rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL", rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL as u64, 7),
    ("rfc2865::NAS_PORT_TYPE_X_25", rfc2865::NAS_PORT_TYPE_X_25 as u64, 8),
    ("rfc2865::NAS_PORT_TYPE_X_75", rfc2865::NAS_PORT_TYPE_X_75 as u64, 9),
    ("rfc2865::NAS_PORT_TYPE_G_3_FAX", rfc2865::NAS_PORT_TYPE_G_3_FAX as u64, 10),
    ("rfc2865::NAS_PORT_TYPE_SDSL", rfc2865::NAS_PORT_TYPE_SDSL as u64, 11),
    ("rfc2865::NAS_PORT_TYPE_ADSL_CAP", rfc2865::NAS_PORT_TYPE_ADSL_CAP as u64, 12),
    ("rfc2865::NAS_PORT_TYPE_ADSL_DMT", rfc2865::NAS_PORT_TYPE_ADSL_DMT as u64, 13),
    ("rfc2865::NAS_PORT_TYPE_IDSL", rfc2865::NAS_PORT_TYPE_IDSL as u64, 14),
    ("rfc2865::NAS_PORT_TYPE_ETHERNET", rfc2865::NAS_PORT_TYPE_ETHERNET as u64, 15),
    ("rfc2865::NAS_PORT_TYPE_X_DSL", rfc2865::NAS_PORT_TYPE_X_DSL as u64, 16),
    ("rfc2865::NAS_PORT_TYPE_CABLE", rfc2865::NAS_PORT_TYPE_CABLE as u64, 17),
    ("rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER", rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER as u64, 18),
    ("rfc2865::NAS_PORT_TYPE_WIRELESS_802_11", rfc2865::NAS_PORT_TYPE_WIRELESS_802_11 as u64, 19),
    ("rfc2865::SERVICE_TYPE_LOGIN_USER", rfc2865::SERVICE_TYPE_LOGIN_USER as u64, 1),
    ("rfc2865::SERVICE_TYPE_FRAMED_USER", rfc2865::SERVICE_TYPE_FRAMED_USER as u64, 2),
    ("rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER", rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER as u64, 3),
    ("rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER", rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER as u64, 4),
    ("rfc2865::SERVICE_TYPE_OUTBOUND_USER", rfc2865::SERVICE_TYPE_OUTBOUND_USER as u64, 5),
    ("rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER", rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER as u64, 6),
    ("rfc2865::SERVICE_TYPE_NAS_PROMPT_USER", rfc2865::SERVICE_TYPE_NAS_PROMPT_USER as u64, 7),
    ("rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY", rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY as u64, 8),
    ("rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT", rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT as u64, 9),
    ("rfc2865::SERVICE_TYPE_CALL_CHECK", rfc2865::SERVICE_TYPE_CALL_CHECK as u64, 10),
    ("rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE", rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE as u64, 11),
    ("rfc2865::TERMINATION_ACTION_DEFAULT", rfc2865::TERMINATION_ACTION_DEFAULT as u64, 0),
    ("rfc2865::TERMINATION_ACTION_RADIUS_REQUEST", rfc2865::TERMINATION_ACTION_RADIUS_REQUEST as u64, 1),
    ("rfc2866::ACCT_AUTHENTIC_RADIUS", rfc2866::ACCT_AUTHENTIC_RADIUS as u64, 1),
    ("rfc2866::ACCT_AUTHENTIC_LOCAL", rfc2866::ACCT_AUTHENTIC_LOCAL as u64, 2),
    ("rfc2866::ACCT_AUTHENTIC_REMOTE", rfc2866::ACCT_AUTHENTIC_REMOTE as u64, 3),
    ("rfc2866::ACCT_AUTHENTIC_DIAMETER", rfc2866::ACCT_AUTHENTIC_DIAMETER as u64, 4),
    ("rfc2866::ACCT_STATUS_TYPE_START", rfc2866::ACCT_STATUS_TYPE_START as u64, 1),
    ("rfc2866::ACCT_STATUS_TYPE_STOP", rfc2866::ACCT_STATUS_TYPE_STOP as u64, 2),
    ("rfc2866::ACCT_STATUS_TYPE_ALIVE", rfc2866::ACCT_STATUS_TYPE_ALIVE as u64, 3),
    ("rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE", rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE as u64, 3),
    ("rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON", rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON as u64, 7),
    ("rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF", rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF as u64, 8),
    ("rfc2866::ACCT_STATUS_TYPE_FAILED", rfc2866::ACCT_STATUS_TYPE_FAILED as u64, 15),
    ("rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST", rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST as u64, 1),
    ("rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER", rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER as u64, 2),
    ("rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE", rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE as u64, 3),
    ("rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT", rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT as u64, 4),
    ("rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT", rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT as u64, 5),
    ("rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET", rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET as u64, 6),
    ("rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT", rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT as u64, 7),
    ("rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR", rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR as u64, 8),
    ("rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR", rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR as u64, 9),
    ("rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST", rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST as u64, 10),
    ("rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT", rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT as u64, 11),
    ("rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED", rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED as u64, 12),
    ("rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED", rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED as u64, 13),
    ("rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED", rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED as u64, 14),
    ("rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE", rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE as u64, 15),
    ("rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK", rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK as u64, 16),
    ("rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR", rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR as u64, 17),
    ("rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST", rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST as u64, 18),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_START", rfc2867::ACCT_STATUS_TYPE_TUNNEL_START as u64, 9),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP", rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP as u64, 10),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT", rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT as u64, 11),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START", rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START as u64, 12),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP", rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP as u64, 13),
    ("rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT", rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT as u64, 14),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_IP", rfc2868::TUNNEL_MEDIUM_TYPE_IP as u64, 1),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4", rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4 as u64, 1),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6", rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6 as u64, 2),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_NSAP", rfc2868::TUNNEL_MEDIUM_TYPE_NSAP as u64, 3),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_HDLC", rfc2868::TUNNEL_MEDIUM_TYPE_HDLC as u64, 4),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822", rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822 as u64, 5),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802", rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802 as u64, 6),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_E_163", rfc2868::TUNNEL_MEDIUM_TYPE_E_163 as u64, 7),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_E_164", rfc2868::TUNNEL_MEDIUM_TYPE_E_164 as u64, 8),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_F_69", rfc2868::TUNNEL_MEDIUM_TYPE_F_69 as u64, 9),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_X_121", rfc2868::TUNNEL_MEDIUM_TYPE_X_121 as u64, 10),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_IPX", rfc2868::TUNNEL_MEDIUM_TYPE_IPX as u64, 11),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK", rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK as u64, 12),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV", rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV as u64, 13),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES", rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES as u64, 14),
    ("rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP", rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP as u64, 15),
    ("rfc2868::TUNNEL_TYPE_PPTP", rfc2868::TUNNEL_TYPE_PPTP as u64, 1),
    ("rfc2868::TUNNEL_TYPE_L2F", rfc2868::TUNNEL_TYPE_L2F as u64, 2),
    ("rfc2868::TUNNEL_TYPE_L2TP", rfc2868::TUNNEL_TYPE_L2TP as u64, 3),
    ("rfc2868::TUNNEL_TYPE_ATMP", rfc2868::TUNNEL_TYPE_ATMP as u64, 4),
    ("rfc2868::TUNNEL_TYPE_VTP", rfc2868::TUNNEL_TYPE_VTP as u64, 5),
    ("rfc2868::TUNNEL_TYPE_AH", rfc2868::TUNNEL_TYPE_AH as u64, 6),
    ("rfc2868::TUNNEL_TYPE_IP", rfc2868::TUNNEL_TYPE_IP as u64, 7),
    ("rfc2868::TUNNEL_TYPE_MIN_IP", rfc2868::TUNNEL_TYPE_MIN_IP as u64, 8),
    ("rfc2868::TUNNEL_TYPE_ESP", rfc2868::TUNNEL_TYPE_ESP as u64, 9),
    ("rfc2868::TUNNEL_TYPE_GRE", rfc2868::TUNNEL_TYPE_GRE as u64, 10),
    ("rfc2868::TUNNEL_TYPE_DVS", rfc2868::TUNNEL_TYPE_DVS as u64, 11),
    ("rfc2868::TUNNEL_TYPE_IP_IN_IP", rfc2868::TUNNEL_TYPE_IP_IN_IP as u64, 12),
    ("rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE", rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE as u64, 1),
    ("rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE", rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE as u64, 2),
    ("rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE", rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE as u64, 4),
    ("rfc2869::PROMPT_NO_ECHO", rfc2869::PROMPT_NO_ECHO as u64, 0),
    ("rfc2869::PROMPT_ECHO", rfc2869::PROMPT_ECHO as u64, 1),
    ("rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED", rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED as u64, 201),
    ("rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET", rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET as u64, 202),
    ("rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE", rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE as u64, 401),
    ("rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE", rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE as u64, 402),
    ("rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH", rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH as u64, 403),
    ("rfc3576::ERROR_CAUSE_INVALID_REQUEST", rfc3576::ERROR_CAUSE_INVALID_REQUEST as u64, 404),
    ("rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE", rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE as u64, 405),
    ("rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION", rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION as u64, 406),
    ("rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED", rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED as u64, 501),
    ("rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE", rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE as u64, 502),
    ("rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND", rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND as u64, 503),
    ("rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE", rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE as u64, 504),
    ("rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR", rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR as u64, 505),
    ("rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE", rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE as u64, 506),
    ("rfc3576::ERROR_CAUSE_REQUEST_INITIATED", rfc3576::ERROR_CAUSE_REQUEST_INITIATED as u64, 507),
    ("rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY", rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY as u64, 17),
    ("rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART", rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART as u64, 19),
    ("rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE", rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE as u64, 20),
    ("rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT", rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT as u64, 21),
    ("rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED", rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED as u64, 22),
    ("rfc3580::NAS_PORT_TYPE_TOKEN_RING", rfc3580::NAS_PORT_TYPE_TOKEN_RING as u64, 20),
    ("rfc3580::NAS_PORT_TYPE_FDDI", rfc3580::NAS_PORT_TYPE_FDDI as u64, 21),
    ("rfc3580::TUNNEL_TYPE_VLAN", rfc3580::TUNNEL_TYPE_VLAN as u64, 13),
    ("rfc4603::NAS_PORT_TYPE_PP_PO_A", rfc4603::NAS_PORT_TYPE_PP_PO_A as u64, 30),
    ("rfc4603::NAS_PORT_TYPE_PP_PO_EO_A", rfc4603::NAS_PORT_TYPE_PP_PO_EO_A as u64, 31),
    ("rfc4603::NAS_PORT_TYPE_PP_PO_EO_E", rfc4603::NAS_PORT_TYPE_PP_PO_EO_E as u64, 32),
    ("rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN", rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN as u64, 33),
    ("rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q", rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q as u64, 34),
    ("rfc4675::INGRESS_FILTERS_ENABLED", rfc4675::INGRESS_FILTERS_ENABLED as u64, 1),
    ("rfc4675::INGRESS_FILTERS_DISABLED", rfc4675::INGRESS_FILTERS_DISABLED as u64, 2),
    ("rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE", rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE as u64, 407),
    ("rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED", rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED as u64, 508),
    ("rfc5607::FRAMED_MANAGEMENT_SNMP", rfc5607::FRAMED_MANAGEMENT_SNMP as u64, 1),
    ("rfc5607::FRAMED_MANAGEMENT_WEB_BASED", rfc5607::FRAMED_MANAGEMENT_WEB_BASED as u64, 2),
    ("rfc5607::FRAMED_MANAGEMENT_NETCONF", rfc5607::FRAMED_MANAGEMENT_NETCONF as u64, 3),
    ("rfc5607::FRAMED_MANAGEMENT_FTP", rfc5607::FRAMED_MANAGEMENT_FTP as u64, 4),
    ("rfc5607::FRAMED_MANAGEMENT_TFTP", rfc5607::FRAMED_MANAGEMENT_TFTP as u64, 5),
    ("rfc5607::FRAMED_MANAGEMENT_SFTP", rfc5607::FRAMED_MANAGEMENT_SFTP as u64, 6),
    ("rfc5607::FRAMED_MANAGEMENT_RCP", rfc5607::FRAMED_MANAGEMENT_RCP as u64, 7),
    ("rfc5607::FRAMED_MANAGEMENT_SCP", rfc5607::FRAMED_MANAGEMENT_SCP as u64, 8),
    ("rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION", rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION as u64, 1),
    ("rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION", rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION as u64, 2),
    ("rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION", rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION as u64, 3),
    ("rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT", rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT as u64, 18),
    ("rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X", rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X as u64, 1),
    ("rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH", rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH as u64, 2),
    ("rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH", rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH as u64, 3),
    ("rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E", rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E as u64, 4),
    ("rfc6677::EAP_LOWER_LAYER_IK_EV_2", rfc6677::EAP_LOWER_LAYER_IK_EV_2 as u64, 5),
    ("rfc6677::EAP_LOWER_LAYER_PPP", rfc6677::EAP_LOWER_LAYER_PPP as u64, 6),
    ("rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH", rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH as u64, 7),
    ("rfc6677::EAP_LOWER_LAYER_GSS_API", rfc6677::EAP_LOWER_LAYER_GSS_API as u64, 8),
    ("rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH", rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH as u64, 9),
] }
