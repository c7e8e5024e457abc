#pragma once
static const unsigned char lib_libtcc1_c[] = "";
static const unsigned lib_libtcc1_c_len = 0;
