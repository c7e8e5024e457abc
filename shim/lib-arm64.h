#pragma once
static const unsigned char lib_lib_arm64_c[] = "";
static const unsigned lib_lib_arm64_c_len = 0;
