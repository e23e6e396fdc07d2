/* generated from the .wat files beside it by build.sh */
static const unsigned char oom_a[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x01, 0x0d, 0x02, 0x60, 0x01, 0x7f,
    0x01, 0x7f, 0x60, 0x03, 0x7e, 0x7d, 0x7c, 0x01, 0x7f, 0x03, 0x03, 0x02, 0x00, 0x01,
    0x04, 0x05, 0x01, 0x70, 0x01, 0x06, 0x14, 0x05, 0x04, 0x01, 0x01, 0x01, 0x04, 0x06,
    0x0b, 0x02, 0x7f, 0x00, 0x41, 0x07, 0x0b, 0x7e, 0x01, 0x42, 0x09, 0x0b, 0x07, 0x1f,
    0x06, 0x03, 0x6d, 0x65, 0x6d, 0x02, 0x00, 0x03, 0x74, 0x61, 0x62, 0x01, 0x00, 0x01,
    0x67, 0x03, 0x00, 0x02, 0x6d, 0x67, 0x03, 0x01, 0x01, 0x66, 0x00, 0x00, 0x02, 0x66,
    0x32, 0x00, 0x01, 0x09, 0x08, 0x01, 0x00, 0x41, 0x00, 0x0b, 0x02, 0x00, 0x00, 0x0a,
    0x0e, 0x02, 0x07, 0x00, 0x20, 0x00, 0x41, 0x01, 0x6a, 0x0b, 0x04, 0x00, 0x41, 0x05,
    0x0b, 0x0b, 0x0b, 0x01, 0x00, 0x41, 0x10, 0x0b, 0x05, 0x68, 0x65, 0x6c, 0x6c, 0x6f,
    0x00, 0x16, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x00, 0x02, 0x01, 0x61, 0x01, 0x04, 0x01,
    0x00, 0x01, 0x66, 0x02, 0x05, 0x02, 0x00, 0x00, 0x01, 0x00,
};
static const unsigned char oom_b[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x01, 0x25, 0x07, 0x60, 0x01, 0x7f,
    0x01, 0x7f, 0x60, 0x02, 0x7f, 0x7f, 0x02, 0x7f, 0x7e, 0x60, 0x03, 0x7e, 0x7d, 0x7c,
    0x01, 0x7f, 0x60, 0x01, 0x7f, 0x00, 0x60, 0x02, 0x7f, 0x7f, 0x01, 0x7f, 0x60, 0x00,
    0x01, 0x7f, 0x60, 0x00, 0x00, 0x02, 0x3a, 0x07, 0x01, 0x61, 0x01, 0x66, 0x00, 0x00,
    0x01, 0x61, 0x02, 0x66, 0x32, 0x00, 0x02, 0x01, 0x61, 0x03, 0x6d, 0x65, 0x6d, 0x02,
    0x01, 0x01, 0x04, 0x01, 0x61, 0x03, 0x74, 0x61, 0x62, 0x01, 0x70, 0x01, 0x04, 0x14,
    0x01, 0x61, 0x01, 0x67, 0x03, 0x7f, 0x00, 0x01, 0x61, 0x02, 0x6d, 0x67, 0x03, 0x7e,
    0x01, 0x01, 0x68, 0x03, 0x6c, 0x6f, 0x67, 0x00, 0x03, 0x03, 0x0f, 0x0e, 0x00, 0x01,
    0x00, 0x04, 0x00, 0x00, 0x00, 0x00, 0x05, 0x05, 0x00, 0x00, 0x06, 0x00, 0x04, 0x08,
    0x02, 0x70, 0x01, 0x03, 0x1e, 0x6f, 0x00, 0x02, 0x06, 0x15, 0x04, 0x7f, 0x01, 0x41,
    0x01, 0x0b, 0x7f, 0x00, 0x23, 0x00, 0x0b, 0x70, 0x00, 0xd2, 0x03, 0x0b, 0x7e, 0x01,
    0x42, 0x7f, 0x0b, 0x07, 0x6c, 0x0f, 0x03, 0x72, 0x65, 0x63, 0x00, 0x03, 0x03, 0x73,
    0x75, 0x6d, 0x00, 0x05, 0x05, 0x6d, 0x75, 0x6c, 0x74, 0x69, 0x00, 0x06, 0x07, 0x67,
    0x72, 0x6f, 0x77, 0x6d, 0x65, 0x6d, 0x00, 0x07, 0x07, 0x67, 0x72, 0x6f, 0x77, 0x74,
    0x61, 0x62, 0x00, 0x08, 0x03, 0x69, 0x6e, 0x64, 0x00, 0x09, 0x05, 0x73, 0x74, 0x6f,
    0x72, 0x65, 0x00, 0x0a, 0x04, 0x62, 0x75, 0x6c, 0x6b, 0x00, 0x0b, 0x04, 0x74, 0x72,
    0x61, 0x70, 0x00, 0x0c, 0x03, 0x64, 0x69, 0x76, 0x00, 0x0d, 0x04, 0x68, 0x6f, 0x73,
    0x74, 0x00, 0x0e, 0x04, 0x64, 0x65, 0x65, 0x70, 0x00, 0x10, 0x02, 0x74, 0x32, 0x01,
    0x01, 0x02, 0x67, 0x30, 0x03, 0x02, 0x06, 0x73, 0x74, 0x61, 0x72, 0x74, 0x66, 0x00,
    0x0f, 0x08, 0x01, 0x0f, 0x09, 0x21, 0x04, 0x00, 0x41, 0x02, 0x0b, 0x02, 0x03, 0x00,
    0x05, 0x70, 0x03, 0xd2, 0x04, 0x0b, 0xd0, 0x70, 0x0b, 0xd2, 0x03, 0x0b, 0x03, 0x00,
    0x01, 0x0f, 0x02, 0x01, 0x41, 0x01, 0x0b, 0x00, 0x02, 0x0f, 0x04, 0x0c, 0x01, 0x02,
    0x0a, 0xc4, 0x02, 0x0e, 0x17, 0x01, 0x04, 0x7e, 0x20, 0x00, 0x45, 0x04, 0x7f, 0x41,
    0x00, 0x05, 0x41, 0x01, 0x20, 0x00, 0x41, 0x01, 0x6b, 0x10, 0x03, 0x6a, 0x0b, 0x0b,
    0x2c, 0x05, 0x01, 0x7f, 0x01, 0x7e, 0x01, 0x7d, 0x01, 0x7c, 0x01, 0x7f, 0x02, 0x7f,
    0x02, 0x7f, 0x02, 0x7f, 0x20, 0x00, 0x20, 0x01, 0x0e, 0x07, 0x00, 0x01, 0x02, 0x00,
    0x01, 0x02, 0x01, 0x00, 0x0b, 0x41, 0x0a, 0x6a, 0x0b, 0x41, 0xe4, 0x00, 0x6a, 0x0b,
    0x42, 0x03, 0x0b, 0x23, 0x01, 0x02, 0x7f, 0x02, 0x40, 0x03, 0x40, 0x20, 0x01, 0x20,
    0x00, 0x4f, 0x0d, 0x01, 0x20, 0x02, 0x20, 0x01, 0x6a, 0x21, 0x02, 0x20, 0x01, 0x41,
    0x01, 0x6a, 0x21, 0x01, 0x0c, 0x00, 0x0b, 0x0b, 0x20, 0x02, 0x0b, 0x09, 0x00, 0x20,
    0x00, 0x20, 0x01, 0x10, 0x04, 0x1a, 0x0b, 0x06, 0x00, 0x20, 0x00, 0x40, 0x00, 0x0b,
    0x09, 0x00, 0xd2, 0x04, 0x20, 0x00, 0xfc, 0x0f, 0x01, 0x0b, 0x09, 0x00, 0x41, 0x29,
    0x20, 0x00, 0x11, 0x00, 0x00, 0x0b, 0x12, 0x00, 0x20, 0x00, 0x41, 0xc4, 0xe6, 0x88,
    0x89, 0x01, 0x36, 0x02, 0x00, 0x20, 0x00, 0x28, 0x02, 0x00, 0x0b, 0x34, 0x00, 0x41,
    0xe4, 0x00, 0x41, 0x00, 0x41, 0x03, 0xfc, 0x08, 0x01, 0x00, 0x41, 0xc8, 0x01, 0x41,
    0xe4, 0x00, 0x41, 0x03, 0xfc, 0x0a, 0x00, 0x00, 0x41, 0xcb, 0x01, 0x41, 0xd5, 0x00,
    0x41, 0x02, 0xfc, 0x0b, 0x00, 0x41, 0x00, 0x41, 0x00, 0x41, 0x02, 0xfc, 0x0c, 0x01,
    0x01, 0x41, 0xc8, 0x01, 0x28, 0x02, 0x00, 0x0b, 0x03, 0x00, 0x00, 0x0b, 0x07, 0x00,
    0x41, 0x01, 0x20, 0x00, 0x6d, 0x0b, 0x0a, 0x00, 0x20, 0x00, 0x10, 0x02, 0x20, 0x00,
    0x10, 0x00, 0x0b, 0x0d, 0x00, 0x41, 0xcd, 0x00, 0x10, 0x02, 0x41, 0x1e, 0x10, 0x03,
    0x24, 0x02, 0x0b, 0x47, 0x00, 0x02, 0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x02,
    0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x02, 0x7f, 0x41, 0x01, 0x20,
    0x00, 0x0d, 0x09, 0x41, 0x02, 0x6a, 0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a,
    0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41,
    0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x41, 0x01, 0x6a,
    0x0b, 0x41, 0x01, 0x6a, 0x0b, 0x0b, 0x10, 0x02, 0x00, 0x41, 0x20, 0x0b, 0x05, 0x77,
    0x6f, 0x72, 0x6c, 0x64, 0x01, 0x03, 0x61, 0x62, 0x63, 0x00, 0xa9, 0x01, 0x04, 0x6e,
    0x61, 0x6d, 0x65, 0x00, 0x02, 0x01, 0x62, 0x01, 0x22, 0x06, 0x00, 0x02, 0x61, 0x66,
    0x01, 0x03, 0x61, 0x66, 0x32, 0x02, 0x03, 0x6c, 0x6f, 0x67, 0x03, 0x03, 0x72, 0x65,
    0x63, 0x04, 0x05, 0x6d, 0x75, 0x6c, 0x74, 0x69, 0x0f, 0x05, 0x73, 0x74, 0x61, 0x72,
    0x74, 0x02, 0x3b, 0x11, 0x00, 0x00, 0x01, 0x00, 0x02, 0x00, 0x03, 0x01, 0x00, 0x01,
    0x6e, 0x04, 0x05, 0x02, 0x01, 0x61, 0x03, 0x01, 0x62, 0x04, 0x01, 0x63, 0x05, 0x01,
    0x64, 0x06, 0x01, 0x65, 0x05, 0x02, 0x01, 0x01, 0x69, 0x02, 0x01, 0x73, 0x06, 0x00,
    0x07, 0x00, 0x08, 0x00, 0x09, 0x00, 0x0a, 0x00, 0x0b, 0x00, 0x0c, 0x00, 0x0d, 0x00,
    0x0e, 0x00, 0x0f, 0x00, 0x10, 0x00, 0x04, 0x09, 0x02, 0x00, 0x02, 0x74, 0x30, 0x01,
    0x02, 0x74, 0x31, 0x05, 0x09, 0x02, 0x01, 0x02, 0x74, 0x32, 0x02, 0x02, 0x74, 0x33,
    0x07, 0x19, 0x06, 0x00, 0x02, 0x61, 0x67, 0x01, 0x02, 0x6d, 0x67, 0x02, 0x02, 0x67,
    0x30, 0x03, 0x02, 0x67, 0x31, 0x04, 0x02, 0x67, 0x32, 0x05, 0x02, 0x67, 0x33, 0x08,
    0x05, 0x01, 0x01, 0x02, 0x65, 0x31, 0x09, 0x05, 0x01, 0x01, 0x02, 0x64, 0x31,
};
static const unsigned char oom_c[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x01, 0x0f, 0x03, 0x60, 0x01, 0x7e,
    0x01, 0x7f, 0x60, 0x00, 0x01, 0x7f, 0x60, 0x01, 0x7f, 0x01, 0x7f, 0x03, 0x07, 0x06,
    0x00, 0x01, 0x02, 0x02, 0x02, 0x02, 0x05, 0x04, 0x01, 0x03, 0x01, 0x03, 0x07, 0x39,
    0x07, 0x03, 0x6d, 0x65, 0x6d, 0x02, 0x00, 0x04, 0x77, 0x61, 0x69, 0x74, 0x00, 0x00,
    0x06, 0x6e, 0x6f, 0x74, 0x69, 0x66, 0x79, 0x00, 0x01, 0x04, 0x67, 0x72, 0x6f, 0x77,
    0x00, 0x02, 0x04, 0x74, 0x61, 0x69, 0x6c, 0x00, 0x03, 0x04, 0x73, 0x69, 0x6d, 0x64,
    0x00, 0x04, 0x0a, 0x6d, 0x61, 0x6e, 0x79, 0x6c, 0x6f, 0x63, 0x61, 0x6c, 0x73, 0x00,
    0x05, 0x0a, 0x5d, 0x06, 0x0c, 0x00, 0x41, 0x08, 0x41, 0x00, 0x20, 0x00, 0xfe, 0x01,
    0x02, 0x00, 0x0b, 0x0a, 0x00, 0x41, 0x08, 0x41, 0x01, 0xfe, 0x00, 0x02, 0x00, 0x0b,
    0x06, 0x00, 0x20, 0x00, 0x40, 0x00, 0x0b, 0x12, 0x00, 0x20, 0x00, 0x45, 0x04, 0x40,
    0x41, 0x0c, 0x0f, 0x0b, 0x20, 0x00, 0x41, 0x01, 0x6b, 0x12, 0x03, 0x0b, 0x1e, 0x00,
    0xfd, 0x0c, 0x01, 0x00, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x03, 0x00, 0x00, 0x00,
    0x04, 0x00, 0x00, 0x00, 0x20, 0x00, 0xfd, 0x11, 0xfd, 0xae, 0x01, 0xfd, 0x1b, 0x00,
    0x0b, 0x0a, 0x03, 0x0c, 0x7b, 0x04, 0x7e, 0x01, 0x7f, 0x20, 0x00, 0x0b, 0x00, 0x21,
    0x04, 0x6e, 0x61, 0x6d, 0x65, 0x00, 0x02, 0x01, 0x63, 0x01, 0x07, 0x01, 0x03, 0x04,
    0x74, 0x61, 0x69, 0x6c, 0x02, 0x0d, 0x06, 0x00, 0x00, 0x01, 0x00, 0x02, 0x00, 0x03,
    0x00, 0x04, 0x00, 0x05, 0x00,
};
static const unsigned char oom_d[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x01, 0x06, 0x01, 0x60, 0x01, 0x7f,
    0x01, 0x7f, 0x02, 0x1c, 0x03, 0x01, 0x73, 0x02, 0x6d, 0x30, 0x02, 0x03, 0x01, 0x02,
    0x01, 0x73, 0x02, 0x6d, 0x31, 0x02, 0x03, 0x01, 0x04, 0x01, 0x73, 0x02, 0x6d, 0x32,
    0x02, 0x03, 0x02, 0x03, 0x03, 0x03, 0x02, 0x00, 0x00, 0x07, 0x10, 0x02, 0x04, 0x67,
    0x72, 0x6f, 0x77, 0x00, 0x00, 0x05, 0x73, 0x74, 0x6f, 0x72, 0x65, 0x00, 0x01, 0x0a,
    0x19, 0x02, 0x06, 0x00, 0x20, 0x00, 0x40, 0x01, 0x0b, 0x10, 0x00, 0x20, 0x00, 0x41,
    0x05, 0x36, 0x42, 0x02, 0x00, 0x20, 0x00, 0x28, 0x42, 0x02, 0x00, 0x0b, 0x00, 0x0c,
    0x04, 0x6e, 0x61, 0x6d, 0x65, 0x02, 0x05, 0x02, 0x00, 0x00, 0x01, 0x00,
};
static const unsigned char oom_m[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x00, 0x20, 0x08, 0x64, 0x79, 0x6c,
    0x69, 0x6e, 0x6b, 0x2e, 0x30, 0x01, 0x04, 0x10, 0x03, 0x01, 0x00, 0x02, 0x05, 0x02,
    0x01, 0x6c, 0x01, 0x6b, 0x04, 0x08, 0x01, 0x03, 0x65, 0x6e, 0x76, 0x01, 0x77, 0x11,
    0x01, 0x1e, 0x05, 0x60, 0x00, 0x01, 0x7f, 0x60, 0x01, 0x7f, 0x01, 0x7f, 0x60, 0x04,
    0x7f, 0x7f, 0x7f, 0x7f, 0x01, 0x7f, 0x60, 0x05, 0x7f, 0x7f, 0x7f, 0x7f, 0x7f, 0x01,
    0x7f, 0x60, 0x00, 0x00, 0x02, 0xdd, 0x01, 0x0d, 0x03, 0x65, 0x6e, 0x76, 0x06, 0x6d,
    0x65, 0x6d, 0x6f, 0x72, 0x79, 0x02, 0x00, 0x01, 0x03, 0x65, 0x6e, 0x76, 0x19, 0x5f,
    0x5f, 0x69, 0x6e, 0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x5f, 0x66, 0x75, 0x6e, 0x63,
    0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65, 0x01, 0x70, 0x00, 0x00,
    0x03, 0x65, 0x6e, 0x76, 0x0f, 0x5f, 0x5f, 0x73, 0x74, 0x61, 0x63, 0x6b, 0x5f, 0x70,
    0x6f, 0x69, 0x6e, 0x74, 0x65, 0x72, 0x03, 0x7f, 0x01, 0x03, 0x65, 0x6e, 0x76, 0x0d,
    0x5f, 0x5f, 0x6d, 0x65, 0x6d, 0x6f, 0x72, 0x79, 0x5f, 0x62, 0x61, 0x73, 0x65, 0x03,
    0x7f, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x0c, 0x5f, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65,
    0x5f, 0x62, 0x61, 0x73, 0x65, 0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x01, 0x66,
    0x00, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x01, 0x67, 0x00, 0x01, 0x03, 0x65, 0x6e, 0x76,
    0x01, 0x77, 0x00, 0x00, 0x08, 0x47, 0x4f, 0x54, 0x2e, 0x66, 0x75, 0x6e, 0x63, 0x01,
    0x66, 0x03, 0x7f, 0x01, 0x08, 0x47, 0x4f, 0x54, 0x2e, 0x66, 0x75, 0x6e, 0x63, 0x03,
    0x6f, 0x77, 0x6e, 0x03, 0x7f, 0x01, 0x07, 0x47, 0x4f, 0x54, 0x2e, 0x6d, 0x65, 0x6d,
    0x01, 0x64, 0x03, 0x7f, 0x01, 0x04, 0x64, 0x79, 0x6c, 0x64, 0x0b, 0x6c, 0x6f, 0x61,
    0x64, 0x5f, 0x6f, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x00, 0x02, 0x04, 0x64, 0x79, 0x6c,
    0x64, 0x0e, 0x72, 0x65, 0x73, 0x6f, 0x6c, 0x76, 0x65, 0x5f, 0x73, 0x79, 0x6d, 0x62,
    0x6f, 0x6c, 0x00, 0x03, 0x03, 0x0a, 0x09, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
    0x04, 0x04, 0x07, 0x68, 0x09, 0x03, 0x6f, 0x77, 0x6e, 0x00, 0x05, 0x06, 0x64, 0x69,
    0x72, 0x65, 0x63, 0x74, 0x00, 0x06, 0x08, 0x69, 0x6e, 0x64, 0x69, 0x72, 0x65, 0x63,
    0x74, 0x00, 0x07, 0x04, 0x64, 0x61, 0x74, 0x61, 0x00, 0x08, 0x07, 0x6d, 0x69, 0x73,
    0x73, 0x69, 0x6e, 0x67, 0x00, 0x09, 0x04, 0x6f, 0x70, 0x65, 0x6e, 0x00, 0x0a, 0x03,
    0x73, 0x79, 0x6d, 0x00, 0x0b, 0x18, 0x5f, 0x5f, 0x77, 0x61, 0x73, 0x6d, 0x5f, 0x61,
    0x70, 0x70, 0x6c, 0x79, 0x5f, 0x64, 0x61, 0x74, 0x61, 0x5f, 0x72, 0x65, 0x6c, 0x6f,
    0x63, 0x73, 0x00, 0x0c, 0x11, 0x5f, 0x5f, 0x77, 0x61, 0x73, 0x6d, 0x5f, 0x63, 0x61,
    0x6c, 0x6c, 0x5f, 0x63, 0x74, 0x6f, 0x72, 0x73, 0x00, 0x0d, 0x09, 0x07, 0x01, 0x00,
    0x23, 0x02, 0x0b, 0x01, 0x05, 0x0a, 0x91, 0x01, 0x09, 0x05, 0x00, 0x41, 0xe8, 0x07,
    0x0b, 0x09, 0x00, 0x10, 0x00, 0x41, 0x03, 0x10, 0x01, 0x6a, 0x0b, 0x0d, 0x00, 0x23,
    0x03, 0x11, 0x00, 0x00, 0x23, 0x04, 0x11, 0x00, 0x00, 0x6a, 0x0b, 0x07, 0x00, 0x23,
    0x05, 0x28, 0x02, 0x00, 0x0b, 0x04, 0x00, 0x10, 0x02, 0x0b, 0x42, 0x00, 0x23, 0x01,
    0x41, 0xe1, 0xcc, 0x95, 0x03, 0x36, 0x02, 0x00, 0x23, 0x01, 0x41, 0xfa, 0x00, 0x3a,
    0x00, 0x00, 0x23, 0x01, 0x41, 0x01, 0x41, 0x00, 0x23, 0x01, 0x41, 0x08, 0x6a, 0x10,
    0x03, 0x23, 0x01, 0x41, 0xe8, 0x00, 0x3a, 0x00, 0x00, 0x23, 0x01, 0x41, 0x08, 0x6a,
    0x28, 0x02, 0x00, 0x41, 0x01, 0x23, 0x01, 0x41, 0x01, 0x23, 0x01, 0x41, 0x0c, 0x6a,
    0x10, 0x04, 0x41, 0x08, 0x74, 0x72, 0x0b, 0x0d, 0x00, 0x23, 0x01, 0x41, 0x0c, 0x6a,
    0x28, 0x02, 0x00, 0x11, 0x00, 0x00, 0x0b, 0x09, 0x00, 0x23, 0x01, 0x41, 0x01, 0x36,
    0x02, 0x00, 0x0b, 0x09, 0x00, 0x23, 0x01, 0x10, 0x00, 0x36, 0x02, 0x04, 0x0b, 0x0b,
    0x16, 0x01, 0x00, 0x23, 0x01, 0x0b, 0x10, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36,
    0x37, 0x38, 0x39, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x00, 0x61, 0x04, 0x6e, 0x61,
    0x6d, 0x65, 0x01, 0x1a, 0x06, 0x00, 0x01, 0x66, 0x01, 0x01, 0x67, 0x02, 0x01, 0x77,
    0x03, 0x04, 0x6f, 0x70, 0x65, 0x6e, 0x04, 0x03, 0x73, 0x79, 0x6d, 0x05, 0x03, 0x6f,
    0x77, 0x6e, 0x02, 0x1d, 0x0e, 0x00, 0x00, 0x01, 0x00, 0x02, 0x00, 0x03, 0x00, 0x04,
    0x00, 0x05, 0x00, 0x06, 0x00, 0x07, 0x00, 0x08, 0x00, 0x09, 0x00, 0x0a, 0x00, 0x0b,
    0x00, 0x0c, 0x00, 0x0d, 0x00, 0x04, 0x04, 0x01, 0x00, 0x01, 0x72, 0x07, 0x19, 0x06,
    0x00, 0x02, 0x73, 0x70, 0x01, 0x02, 0x6d, 0x62, 0x02, 0x02, 0x74, 0x62, 0x03, 0x02,
    0x67, 0x66, 0x04, 0x02, 0x67, 0x6f, 0x05, 0x02, 0x67, 0x64,
};
static const unsigned char oom_l[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x00, 0x14, 0x08, 0x64, 0x79, 0x6c,
    0x69, 0x6e, 0x6b, 0x2e, 0x30, 0x01, 0x04, 0x10, 0x02, 0x00, 0x00, 0x02, 0x03, 0x01,
    0x01, 0x6b, 0x01, 0x0d, 0x03, 0x60, 0x01, 0x7f, 0x01, 0x7f, 0x60, 0x00, 0x01, 0x7f,
    0x60, 0x00, 0x00, 0x02, 0x6f, 0x06, 0x03, 0x65, 0x6e, 0x76, 0x06, 0x6d, 0x65, 0x6d,
    0x6f, 0x72, 0x79, 0x02, 0x00, 0x01, 0x03, 0x65, 0x6e, 0x76, 0x19, 0x5f, 0x5f, 0x69,
    0x6e, 0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x5f, 0x66, 0x75, 0x6e, 0x63, 0x74, 0x69,
    0x6f, 0x6e, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65, 0x01, 0x70, 0x00, 0x00, 0x03, 0x65,
    0x6e, 0x76, 0x0d, 0x5f, 0x5f, 0x6d, 0x65, 0x6d, 0x6f, 0x72, 0x79, 0x5f, 0x62, 0x61,
    0x73, 0x65, 0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x0c, 0x5f, 0x5f, 0x74, 0x61,
    0x62, 0x6c, 0x65, 0x5f, 0x62, 0x61, 0x73, 0x65, 0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e,
    0x76, 0x01, 0x67, 0x00, 0x00, 0x07, 0x47, 0x4f, 0x54, 0x2e, 0x6d, 0x65, 0x6d, 0x01,
    0x64, 0x03, 0x7f, 0x01, 0x03, 0x04, 0x03, 0x01, 0x02, 0x02, 0x06, 0x06, 0x01, 0x7f,
    0x00, 0x41, 0x04, 0x0b, 0x07, 0x32, 0x04, 0x01, 0x64, 0x03, 0x03, 0x01, 0x66, 0x00,
    0x01, 0x18, 0x5f, 0x5f, 0x77, 0x61, 0x73, 0x6d, 0x5f, 0x61, 0x70, 0x70, 0x6c, 0x79,
    0x5f, 0x64, 0x61, 0x74, 0x61, 0x5f, 0x72, 0x65, 0x6c, 0x6f, 0x63, 0x73, 0x00, 0x02,
    0x0b, 0x5f, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x61, 0x6c, 0x69, 0x7a, 0x65, 0x00, 0x03,
    0x0a, 0x16, 0x03, 0x06, 0x00, 0x41, 0x08, 0x10, 0x00, 0x0b, 0x02, 0x00, 0x0b, 0x0a,
    0x00, 0x23, 0x02, 0x41, 0xcd, 0x00, 0x36, 0x02, 0x00, 0x0b, 0x0b, 0x16, 0x01, 0x00,
    0x23, 0x00, 0x0b, 0x10, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39,
    0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x00, 0x25, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x01,
    0x04, 0x01, 0x00, 0x01, 0x67, 0x02, 0x09, 0x04, 0x00, 0x00, 0x01, 0x00, 0x02, 0x00,
    0x03, 0x00, 0x07, 0x0d, 0x03, 0x00, 0x02, 0x6d, 0x62, 0x01, 0x02, 0x74, 0x62, 0x02,
    0x02, 0x67, 0x64,
};
static const unsigned char oom_k[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x00, 0x0f, 0x08, 0x64, 0x79, 0x6c,
    0x69, 0x6e, 0x6b, 0x2e, 0x30, 0x01, 0x04, 0x10, 0x04, 0x01, 0x01, 0x01, 0x06, 0x01,
    0x60, 0x01, 0x7f, 0x01, 0x7f, 0x02, 0x5a, 0x04, 0x03, 0x65, 0x6e, 0x76, 0x06, 0x6d,
    0x65, 0x6d, 0x6f, 0x72, 0x79, 0x02, 0x00, 0x01, 0x03, 0x65, 0x6e, 0x76, 0x19, 0x5f,
    0x5f, 0x69, 0x6e, 0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x5f, 0x66, 0x75, 0x6e, 0x63,
    0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65, 0x01, 0x70, 0x00, 0x00,
    0x03, 0x65, 0x6e, 0x76, 0x0d, 0x5f, 0x5f, 0x6d, 0x65, 0x6d, 0x6f, 0x72, 0x79, 0x5f,
    0x62, 0x61, 0x73, 0x65, 0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x0c, 0x5f, 0x5f,
    0x74, 0x61, 0x62, 0x6c, 0x65, 0x5f, 0x62, 0x61, 0x73, 0x65, 0x03, 0x7f, 0x00, 0x03,
    0x02, 0x01, 0x00, 0x07, 0x05, 0x01, 0x01, 0x67, 0x00, 0x00, 0x09, 0x07, 0x01, 0x00,
    0x23, 0x01, 0x0b, 0x01, 0x00, 0x0a, 0x09, 0x01, 0x07, 0x00, 0x20, 0x00, 0x41, 0x05,
    0x6a, 0x0b, 0x0b, 0x16, 0x01, 0x00, 0x23, 0x00, 0x0b, 0x10, 0x30, 0x31, 0x32, 0x33,
    0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x00, 0x1b,
    0x04, 0x6e, 0x61, 0x6d, 0x65, 0x01, 0x04, 0x01, 0x00, 0x01, 0x67, 0x02, 0x03, 0x01,
    0x00, 0x00, 0x07, 0x09, 0x02, 0x00, 0x02, 0x6d, 0x62, 0x01, 0x02, 0x74, 0x62,
};
static const unsigned char oom_z[] = {
    0x00, 0x61, 0x73, 0x6d, 0x01, 0x00, 0x00, 0x00, 0x00, 0x14, 0x08, 0x64, 0x79, 0x6c,
    0x69, 0x6e, 0x6b, 0x2e, 0x30, 0x01, 0x04, 0x10, 0x04, 0x01, 0x01, 0x02, 0x03, 0x01,
    0x01, 0x6c, 0x01, 0x05, 0x01, 0x60, 0x00, 0x01, 0x7f, 0x02, 0x62, 0x05, 0x03, 0x65,
    0x6e, 0x76, 0x06, 0x6d, 0x65, 0x6d, 0x6f, 0x72, 0x79, 0x02, 0x00, 0x01, 0x03, 0x65,
    0x6e, 0x76, 0x19, 0x5f, 0x5f, 0x69, 0x6e, 0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x5f,
    0x66, 0x75, 0x6e, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65,
    0x01, 0x70, 0x00, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x0d, 0x5f, 0x5f, 0x6d, 0x65, 0x6d,
    0x6f, 0x72, 0x79, 0x5f, 0x62, 0x61, 0x73, 0x65, 0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e,
    0x76, 0x0c, 0x5f, 0x5f, 0x74, 0x61, 0x62, 0x6c, 0x65, 0x5f, 0x62, 0x61, 0x73, 0x65,
    0x03, 0x7f, 0x00, 0x03, 0x65, 0x6e, 0x76, 0x01, 0x66, 0x00, 0x00, 0x03, 0x02, 0x01,
    0x00, 0x07, 0x05, 0x01, 0x01, 0x68, 0x00, 0x01, 0x09, 0x07, 0x01, 0x00, 0x23, 0x01,
    0x0b, 0x01, 0x01, 0x0a, 0x0a, 0x01, 0x08, 0x00, 0x10, 0x00, 0x41, 0xf4, 0x03, 0x6a,
    0x0b, 0x0b, 0x16, 0x01, 0x00, 0x23, 0x00, 0x0b, 0x10, 0x30, 0x31, 0x32, 0x33, 0x34,
    0x35, 0x36, 0x37, 0x38, 0x39, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x00, 0x20, 0x04,
    0x6e, 0x61, 0x6d, 0x65, 0x01, 0x07, 0x02, 0x00, 0x01, 0x66, 0x01, 0x01, 0x68, 0x02,
    0x05, 0x02, 0x00, 0x00, 0x01, 0x00, 0x07, 0x09, 0x02, 0x00, 0x02, 0x6d, 0x62, 0x01,
    0x02, 0x74, 0x62,
};
