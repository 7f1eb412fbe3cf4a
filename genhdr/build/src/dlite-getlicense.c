/* Generated by gencfile - do not edit! */

static char content[] = {
  /* content of "/repo/LICENSE" */
  0x4d, 0x49, 0x54, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x0a, 0x0a, 0x43, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28,
  0x63, 0x29, 0x20, 0x32, 0x30, 0x31, 0x37, 0x2d,
  0x32, 0x30, 0x32, 0x35, 0x20, 0x53, 0x49, 0x4e,
  0x54, 0x45, 0x46, 0x0a, 0x0a, 0x50, 0x65, 0x72,
  0x6d, 0x69, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20,
  0x69, 0x73, 0x20, 0x68, 0x65, 0x72, 0x65, 0x62,
  0x79, 0x20, 0x67, 0x72, 0x61, 0x6e, 0x74, 0x65,
  0x64, 0x2c, 0x20, 0x66, 0x72, 0x65, 0x65, 0x20,
  0x6f, 0x66, 0x20, 0x63, 0x68, 0x61, 0x72, 0x67,
  0x65, 0x2c, 0x20, 0x74, 0x6f, 0x20, 0x61, 0x6e,
  0x79, 0x20, 0x70, 0x65, 0x72, 0x73, 0x6f, 0x6e,
  0x20, 0x6f, 0x62, 0x74, 0x61, 0x69, 0x6e, 0x69,
  0x6e, 0x67, 0x20, 0x61, 0x20, 0x63, 0x6f, 0x70,
  0x79, 0x0a, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x69,
  0x73, 0x20, 0x73, 0x6f, 0x66, 0x74, 0x77, 0x61,
  0x72, 0x65, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x61,
  0x73, 0x73, 0x6f, 0x63, 0x69, 0x61, 0x74, 0x65,
  0x64, 0x20, 0x64, 0x6f, 0x63, 0x75, 0x6d, 0x65,
  0x6e, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x66, 0x69, 0x6c, 0x65, 0x73, 0x20, 0x28, 0x74,
  0x68, 0x65, 0x20, 0x22, 0x53, 0x6f, 0x66, 0x74,
  0x77, 0x61, 0x72, 0x65, 0x22, 0x29, 0x2c, 0x20,
  0x74, 0x6f, 0x20, 0x64, 0x65, 0x61, 0x6c, 0x0a,
  0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20, 0x53,
  0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x20,
  0x77, 0x69, 0x74, 0x68, 0x6f, 0x75, 0x74, 0x20,
  0x72, 0x65, 0x73, 0x74, 0x72, 0x69, 0x63, 0x74,
  0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x69, 0x6e, 0x63,
  0x6c, 0x75, 0x64, 0x69, 0x6e, 0x67, 0x20, 0x77,
  0x69, 0x74, 0x68, 0x6f, 0x75, 0x74, 0x20, 0x6c,
  0x69, 0x6d, 0x69, 0x74, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x20, 0x74, 0x68, 0x65, 0x20, 0x72, 0x69,
  0x67, 0x68, 0x74, 0x73, 0x0a, 0x74, 0x6f, 0x20,
  0x75, 0x73, 0x65, 0x2c, 0x20, 0x63, 0x6f, 0x70,
  0x79, 0x2c, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66,
  0x79, 0x2c, 0x20, 0x6d, 0x65, 0x72, 0x67, 0x65,
  0x2c, 0x20, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x73,
  0x68, 0x2c, 0x20, 0x64, 0x69, 0x73, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x65, 0x2c, 0x20, 0x73,
  0x75, 0x62, 0x6c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x2c, 0x20, 0x61, 0x6e, 0x64, 0x2f, 0x6f,
  0x72, 0x20, 0x73, 0x65, 0x6c, 0x6c, 0x0a, 0x63,
  0x6f, 0x70, 0x69, 0x65, 0x73, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x53, 0x6f, 0x66,
  0x74, 0x77, 0x61, 0x72, 0x65, 0x2c, 0x20, 0x61,
  0x6e, 0x64, 0x20, 0x74, 0x6f, 0x20, 0x70, 0x65,
  0x72, 0x6d, 0x69, 0x74, 0x20, 0x70, 0x65, 0x72,
  0x73, 0x6f, 0x6e, 0x73, 0x20, 0x74, 0x6f, 0x20,
  0x77, 0x68, 0x6f, 0x6d, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x53, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72,
  0x65, 0x20, 0x69, 0x73, 0x0a, 0x66, 0x75, 0x72,
  0x6e, 0x69, 0x73, 0x68, 0x65, 0x64, 0x20, 0x74,
  0x6f, 0x20, 0x64, 0x6f, 0x20, 0x73, 0x6f, 0x2c,
  0x20, 0x73, 0x75, 0x62, 0x6a, 0x65, 0x63, 0x74,
  0x20, 0x74, 0x6f, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x66, 0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69, 0x6e,
  0x67, 0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74,
  0x69, 0x6f, 0x6e, 0x73, 0x3a, 0x0a, 0x0a, 0x54,
  0x68, 0x65, 0x20, 0x61, 0x62, 0x6f, 0x76, 0x65,
  0x20, 0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67,
  0x68, 0x74, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x74, 0x68,
  0x69, 0x73, 0x20, 0x70, 0x65, 0x72, 0x6d, 0x69,
  0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20, 0x6e, 0x6f,
  0x74, 0x69, 0x63, 0x65, 0x20, 0x73, 0x68, 0x61,
  0x6c, 0x6c, 0x20, 0x62, 0x65, 0x20, 0x69, 0x6e,
  0x63, 0x6c, 0x75, 0x64, 0x65, 0x64, 0x20, 0x69,
  0x6e, 0x20, 0x61, 0x6c, 0x6c, 0x0a, 0x63, 0x6f,
  0x70, 0x69, 0x65, 0x73, 0x20, 0x6f, 0x72, 0x20,
  0x73, 0x75, 0x62, 0x73, 0x74, 0x61, 0x6e, 0x74,
  0x69, 0x61, 0x6c, 0x20, 0x70, 0x6f, 0x72, 0x74,
  0x69, 0x6f, 0x6e, 0x73, 0x20, 0x6f, 0x66, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x53, 0x6f, 0x66, 0x74,
  0x77, 0x61, 0x72, 0x65, 0x2e, 0x0a, 0x0a, 0x54,
  0x48, 0x45, 0x20, 0x53, 0x4f, 0x46, 0x54, 0x57,
  0x41, 0x52, 0x45, 0x20, 0x49, 0x53, 0x20, 0x50,
  0x52, 0x4f, 0x56, 0x49, 0x44, 0x45, 0x44, 0x20,
  0x22, 0x41, 0x53, 0x20, 0x49, 0x53, 0x22, 0x2c,
  0x20, 0x57, 0x49, 0x54, 0x48, 0x4f, 0x55, 0x54,
  0x20, 0x57, 0x41, 0x52, 0x52, 0x41, 0x4e, 0x54,
  0x59, 0x20, 0x4f, 0x46, 0x20, 0x41, 0x4e, 0x59,
  0x20, 0x4b, 0x49, 0x4e, 0x44, 0x2c, 0x20, 0x45,
  0x58, 0x50, 0x52, 0x45, 0x53, 0x53, 0x20, 0x4f,
  0x52, 0x0a, 0x49, 0x4d, 0x50, 0x4c, 0x49, 0x45,
  0x44, 0x2c, 0x20, 0x49, 0x4e, 0x43, 0x4c, 0x55,
  0x44, 0x49, 0x4e, 0x47, 0x20, 0x42, 0x55, 0x54,
  0x20, 0x4e, 0x4f, 0x54, 0x20, 0x4c, 0x49, 0x4d,
  0x49, 0x54, 0x45, 0x44, 0x20, 0x54, 0x4f, 0x20,
  0x54, 0x48, 0x45, 0x20, 0x57, 0x41, 0x52, 0x52,
  0x41, 0x4e, 0x54, 0x49, 0x45, 0x53, 0x20, 0x4f,
  0x46, 0x20, 0x4d, 0x45, 0x52, 0x43, 0x48, 0x41,
  0x4e, 0x54, 0x41, 0x42, 0x49, 0x4c, 0x49, 0x54,
  0x59, 0x2c, 0x0a, 0x46, 0x49, 0x54, 0x4e, 0x45,
  0x53, 0x53, 0x20, 0x46, 0x4f, 0x52, 0x20, 0x41,
  0x20, 0x50, 0x41, 0x52, 0x54, 0x49, 0x43, 0x55,
  0x4c, 0x41, 0x52, 0x20, 0x50, 0x55, 0x52, 0x50,
  0x4f, 0x53, 0x45, 0x20, 0x41, 0x4e, 0x44, 0x20,
  0x4e, 0x4f, 0x4e, 0x49, 0x4e, 0x46, 0x52, 0x49,
  0x4e, 0x47, 0x45, 0x4d, 0x45, 0x4e, 0x54, 0x2e,
  0x20, 0x49, 0x4e, 0x20, 0x4e, 0x4f, 0x20, 0x45,
  0x56, 0x45, 0x4e, 0x54, 0x20, 0x53, 0x48, 0x41,
  0x4c, 0x4c, 0x20, 0x54, 0x48, 0x45, 0x0a, 0x41,
  0x55, 0x54, 0x48, 0x4f, 0x52, 0x53, 0x20, 0x4f,
  0x52, 0x20, 0x43, 0x4f, 0x50, 0x59, 0x52, 0x49,
  0x47, 0x48, 0x54, 0x20, 0x48, 0x4f, 0x4c, 0x44,
  0x45, 0x52, 0x53, 0x20, 0x42, 0x45, 0x20, 0x4c,
  0x49, 0x41, 0x42, 0x4c, 0x45, 0x20, 0x46, 0x4f,
  0x52, 0x20, 0x41, 0x4e, 0x59, 0x20, 0x43, 0x4c,
  0x41, 0x49, 0x4d, 0x2c, 0x20, 0x44, 0x41, 0x4d,
  0x41, 0x47, 0x45, 0x53, 0x20, 0x4f, 0x52, 0x20,
  0x4f, 0x54, 0x48, 0x45, 0x52, 0x0a, 0x4c, 0x49,
  0x41, 0x42, 0x49, 0x4c, 0x49, 0x54, 0x59, 0x2c,
  0x20, 0x57, 0x48, 0x45, 0x54, 0x48, 0x45, 0x52,
  0x20, 0x49, 0x4e, 0x20, 0x41, 0x4e, 0x20, 0x41,
  0x43, 0x54, 0x49, 0x4f, 0x4e, 0x20, 0x4f, 0x46,
  0x20, 0x43, 0x4f, 0x4e, 0x54, 0x52, 0x41, 0x43,
  0x54, 0x2c, 0x20, 0x54, 0x4f, 0x52, 0x54, 0x20,
  0x4f, 0x52, 0x20, 0x4f, 0x54, 0x48, 0x45, 0x52,
  0x57, 0x49, 0x53, 0x45, 0x2c, 0x20, 0x41, 0x52,
  0x49, 0x53, 0x49, 0x4e, 0x47, 0x20, 0x46, 0x52,
  0x4f, 0x4d, 0x2c, 0x0a, 0x4f, 0x55, 0x54, 0x20,
  0x4f, 0x46, 0x20, 0x4f, 0x52, 0x20, 0x49, 0x4e,
  0x20, 0x43, 0x4f, 0x4e, 0x4e, 0x45, 0x43, 0x54,
  0x49, 0x4f, 0x4e, 0x20, 0x57, 0x49, 0x54, 0x48,
  0x20, 0x54, 0x48, 0x45, 0x20, 0x53, 0x4f, 0x46,
  0x54, 0x57, 0x41, 0x52, 0x45, 0x20, 0x4f, 0x52,
  0x20, 0x54, 0x48, 0x45, 0x20, 0x55, 0x53, 0x45,
  0x20, 0x4f, 0x52, 0x20, 0x4f, 0x54, 0x48, 0x45,
  0x52, 0x20, 0x44, 0x45, 0x41, 0x4c, 0x49, 0x4e,
  0x47, 0x53, 0x20, 0x49, 0x4e, 0x20, 0x54, 0x48,
  0x45, 0x0a, 0x53, 0x4f, 0x46, 0x54, 0x57, 0x41,
  0x52, 0x45, 0x2e, 0x0a,
  0x0a, 0x0a,  /* separator */
  /* content of "/repo/src/utils/LICENSES.txt" */ 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x73, 0x20, 0x66, 0x6f, 0x72,
  0x20, 0x64, 0x6c, 0x69, 0x74, 0x65, 0x2f, 0x75,
  0x74, 0x69, 0x6c, 0x73, 0x0a, 0x3d, 0x3d, 0x3d,
  0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d,
  0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x3d,
  0x3d, 0x3d, 0x3d, 0x3d, 0x3d, 0x0a, 0x54, 0x68,
  0x65, 0x20, 0x63, 0x6f, 0x64, 0x65, 0x20, 0x69,
  0x6e, 0x20, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
  0x6c, 0x20, 0x69, 0x73, 0x20, 0x63, 0x6f, 0x76,
  0x65, 0x72, 0x65, 0x64, 0x20, 0x62, 0x79, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4d, 0x49, 0x54, 0x20,
  0x6c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x2c,
  0x20, 0x62, 0x75, 0x74, 0x20, 0x73, 0x6f, 0x6d,
  0x65, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x73, 0x0a,
  0x68, 0x61, 0x76, 0x65, 0x20, 0x6f, 0x74, 0x68,
  0x65, 0x72, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x73, 0x20, 0x61, 0x73, 0x20, 0x6c,
  0x69, 0x73, 0x74, 0x65, 0x64, 0x20, 0x62, 0x65,
  0x6c, 0x6f, 0x77, 0x2e, 0x0a, 0x0a, 0x0a, 0x4d,
  0x49, 0x54, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x0a, 0x50,
  0x65, 0x72, 0x6d, 0x69, 0x73, 0x73, 0x69, 0x6f,
  0x6e, 0x20, 0x69, 0x73, 0x20, 0x68, 0x65, 0x72,
  0x65, 0x62, 0x79, 0x20, 0x67, 0x72, 0x61, 0x6e,
  0x74, 0x65, 0x64, 0x2c, 0x20, 0x66, 0x72, 0x65,
  0x65, 0x20, 0x6f, 0x66, 0x20, 0x63, 0x68, 0x61,
  0x72, 0x67, 0x65, 0x2c, 0x20, 0x74, 0x6f, 0x20,
  0x61, 0x6e, 0x79, 0x20, 0x70, 0x65, 0x72, 0x73,
  0x6f, 0x6e, 0x20, 0x6f, 0x62, 0x74, 0x61, 0x69,
  0x6e, 0x69, 0x6e, 0x67, 0x0a, 0x61, 0x20, 0x63,
  0x6f, 0x70, 0x79, 0x20, 0x6f, 0x66, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x73, 0x6f, 0x66, 0x74,
  0x77, 0x61, 0x72, 0x65, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x61, 0x73, 0x73, 0x6f, 0x63, 0x69, 0x61,
  0x74, 0x65, 0x64, 0x20, 0x64, 0x6f, 0x63, 0x75,
  0x6d, 0x65, 0x6e, 0x74, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x73, 0x20,
  0x28, 0x74, 0x68, 0x65, 0x0a, 0x22, 0x53, 0x6f,
  0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x22, 0x29,
  0x2c, 0x20, 0x74, 0x6f, 0x20, 0x64, 0x65, 0x61,
  0x6c, 0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x53, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72,
  0x65, 0x20, 0x77, 0x69, 0x74, 0x68, 0x6f, 0x75,
  0x74, 0x20, 0x72, 0x65, 0x73, 0x74, 0x72, 0x69,
  0x63, 0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x69,
  0x6e, 0x63, 0x6c, 0x75, 0x64, 0x69, 0x6e, 0x67,
  0x0a, 0x77, 0x69, 0x74, 0x68, 0x6f, 0x75, 0x74,
  0x20, 0x6c, 0x69, 0x6d, 0x69, 0x74, 0x61, 0x74,
  0x69, 0x6f, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x73, 0x20, 0x74,
  0x6f, 0x20, 0x75, 0x73, 0x65, 0x2c, 0x20, 0x63,
  0x6f, 0x70, 0x79, 0x2c, 0x20, 0x6d, 0x6f, 0x64,
  0x69, 0x66, 0x79, 0x2c, 0x20, 0x6d, 0x65, 0x72,
  0x67, 0x65, 0x2c, 0x20, 0x70, 0x75, 0x62, 0x6c,
  0x69, 0x73, 0x68, 0x2c, 0x0a, 0x64, 0x69, 0x73,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65, 0x2c,
  0x20, 0x73, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x2c, 0x20, 0x61, 0x6e, 0x64,
  0x2f, 0x6f, 0x72, 0x20, 0x73, 0x65, 0x6c, 0x6c,
  0x20, 0x63, 0x6f, 0x70, 0x69, 0x65, 0x73, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x53,
  0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x2c,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x74, 0x6f, 0x0a,
  0x70, 0x65, 0x72, 0x6d, 0x69, 0x74, 0x20, 0x70,
  0x65, 0x72, 0x73, 0x6f, 0x6e, 0x73, 0x20, 0x74,
  0x6f, 0x20, 0x77, 0x68, 0x6f, 0x6d, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x53, 0x6f, 0x66, 0x74, 0x77,
  0x61, 0x72, 0x65, 0x20, 0x69, 0x73, 0x20, 0x66,
  0x75, 0x72, 0x6e, 0x69, 0x73, 0x68, 0x65, 0x64,
  0x20, 0x74, 0x6f, 0x20, 0x64, 0x6f, 0x20, 0x73,
  0x6f, 0x2c, 0x20, 0x73, 0x75, 0x62, 0x6a, 0x65,
  0x63, 0x74, 0x20, 0x74, 0x6f, 0x0a, 0x74, 0x68,
  0x65, 0x20, 0x66, 0x6f, 0x6c, 0x6c, 0x6f, 0x77,
  0x69, 0x6e, 0x67, 0x20, 0x63, 0x6f, 0x6e, 0x64,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x3a, 0x0a,
  0x0a, 0x54, 0x68, 0x65, 0x20, 0x61, 0x62, 0x6f,
  0x76, 0x65, 0x20, 0x63, 0x6f, 0x70, 0x79, 0x72,
  0x69, 0x67, 0x68, 0x74, 0x20, 0x6e, 0x6f, 0x74,
  0x69, 0x63, 0x65, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x74, 0x68, 0x69, 0x73, 0x20, 0x70, 0x65, 0x72,
  0x6d, 0x69, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20,
  0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x20, 0x73,
  0x68, 0x61, 0x6c, 0x6c, 0x20, 0x62, 0x65, 0x0a,
  0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x65, 0x64,
  0x20, 0x69, 0x6e, 0x20, 0x61, 0x6c, 0x6c, 0x20,
  0x63, 0x6f, 0x70, 0x69, 0x65, 0x73, 0x20, 0x6f,
  0x72, 0x20, 0x73, 0x75, 0x62, 0x73, 0x74, 0x61,
  0x6e, 0x74, 0x69, 0x61, 0x6c, 0x20, 0x70, 0x6f,
  0x72, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x6f,
  0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x53, 0x6f,
  0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x2e, 0x0a,
  0x0a, 0x54, 0x48, 0x45, 0x20, 0x53, 0x4f, 0x46,
  0x54, 0x57, 0x41, 0x52, 0x45, 0x20, 0x49, 0x53,
  0x20, 0x50, 0x52, 0x4f, 0x56, 0x49, 0x44, 0x45,
  0x44, 0x20, 0x22, 0x41, 0x53, 0x20, 0x49, 0x53,
  0x22, 0x2c, 0x20, 0x57, 0x49, 0x54, 0x48, 0x4f,
  0x55, 0x54, 0x20, 0x57, 0x41, 0x52, 0x52, 0x41,
  0x4e, 0x54, 0x59, 0x20, 0x4f, 0x46, 0x20, 0x41,
  0x4e, 0x59, 0x20, 0x4b, 0x49, 0x4e, 0x44, 0x2c,
  0x0a, 0x45, 0x58, 0x50, 0x52, 0x45, 0x53, 0x53,
  0x20, 0x4f, 0x52, 0x20, 0x49, 0x4d, 0x50, 0x4c,
  0x49, 0x45, 0x44, 0x2c, 0x20, 0x49, 0x4e, 0x43,
  0x4c, 0x55, 0x44, 0x49, 0x4e, 0x47, 0x20, 0x42,
  0x55, 0x54, 0x20, 0x4e, 0x4f, 0x54, 0x20, 0x4c,
  0x49, 0x4d, 0x49, 0x54, 0x45, 0x44, 0x20, 0x54,
  0x4f, 0x20, 0x54, 0x48, 0x45, 0x20, 0x57, 0x41,
  0x52, 0x52, 0x41, 0x4e, 0x54, 0x49, 0x45, 0x53,
  0x20, 0x4f, 0x46, 0x0a, 0x4d, 0x45, 0x52, 0x43,
  0x48, 0x41, 0x4e, 0x54, 0x41, 0x42, 0x49, 0x4c,
  0x49, 0x54, 0x59, 0x2c, 0x20, 0x46, 0x49, 0x54,
  0x4e, 0x45, 0x53, 0x53, 0x20, 0x46, 0x4f, 0x52,
  0x20, 0x41, 0x20, 0x50, 0x41, 0x52, 0x54, 0x49,
  0x43, 0x55, 0x4c, 0x41, 0x52, 0x20, 0x50, 0x55,
  0x52, 0x50, 0x4f, 0x53, 0x45, 0x20, 0x41, 0x4e,
  0x44, 0x0a, 0x4e, 0x4f, 0x4e, 0x49, 0x4e, 0x46,
  0x52, 0x49, 0x4e, 0x47, 0x45, 0x4d, 0x45, 0x4e,
  0x54, 0x2e, 0x20, 0x49, 0x4e, 0x20, 0x4e, 0x4f,
  0x20, 0x45, 0x56, 0x45, 0x4e, 0x54, 0x20, 0x53,
  0x48, 0x41, 0x4c, 0x4c, 0x20, 0x54, 0x48, 0x45,
  0x20, 0x41, 0x55, 0x54, 0x48, 0x4f, 0x52, 0x53,
  0x20, 0x4f, 0x52, 0x20, 0x43, 0x4f, 0x50, 0x59,
  0x52, 0x49, 0x47, 0x48, 0x54, 0x20, 0x48, 0x4f,
  0x4c, 0x44, 0x45, 0x52, 0x53, 0x20, 0x42, 0x45,
  0x0a, 0x4c, 0x49, 0x41, 0x42, 0x4c, 0x45, 0x20,
  0x46, 0x4f, 0x52, 0x20, 0x41, 0x4e, 0x59, 0x20,
  0x43, 0x4c, 0x41, 0x49, 0x4d, 0x2c, 0x20, 0x44,
  0x41, 0x4d, 0x41, 0x47, 0x45, 0x53, 0x20, 0x4f,
  0x52, 0x20, 0x4f, 0x54, 0x48, 0x45, 0x52, 0x20,
  0x4c, 0x49, 0x41, 0x42, 0x49, 0x4c, 0x49, 0x54,
  0x59, 0x2c, 0x20, 0x57, 0x48, 0x45, 0x54, 0x48,
  0x45, 0x52, 0x20, 0x49, 0x4e, 0x20, 0x41, 0x4e,
  0x20, 0x41, 0x43, 0x54, 0x49, 0x4f, 0x4e, 0x0a,
  0x4f, 0x46, 0x20, 0x43, 0x4f, 0x4e, 0x54, 0x52,
  0x41, 0x43, 0x54, 0x2c, 0x20, 0x54, 0x4f, 0x52,
  0x54, 0x20, 0x4f, 0x52, 0x20, 0x4f, 0x54, 0x48,
  0x45, 0x52, 0x57, 0x49, 0x53, 0x45, 0x2c, 0x20,
  0x41, 0x52, 0x49, 0x53, 0x49, 0x4e, 0x47, 0x20,
  0x46, 0x52, 0x4f, 0x4d, 0x2c, 0x20, 0x4f, 0x55,
  0x54, 0x20, 0x4f, 0x46, 0x20, 0x4f, 0x52, 0x20,
  0x49, 0x4e, 0x20, 0x43, 0x4f, 0x4e, 0x4e, 0x45,
  0x43, 0x54, 0x49, 0x4f, 0x4e, 0x0a, 0x57, 0x49,
  0x54, 0x48, 0x20, 0x54, 0x48, 0x45, 0x20, 0x53,
  0x4f, 0x46, 0x54, 0x57, 0x41, 0x52, 0x45, 0x20,
  0x4f, 0x52, 0x20, 0x54, 0x48, 0x45, 0x20, 0x55,
  0x53, 0x45, 0x20, 0x4f, 0x52, 0x20, 0x4f, 0x54,
  0x48, 0x45, 0x52, 0x20, 0x44, 0x45, 0x41, 0x4c,
  0x49, 0x4e, 0x47, 0x53, 0x20, 0x49, 0x4e, 0x20,
  0x54, 0x48, 0x45, 0x20, 0x53, 0x4f, 0x46, 0x54,
  0x57, 0x41, 0x52, 0x45, 0x2e, 0x0a, 0x0a, 0x0a,
  0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20,
  0x66, 0x6f, 0x72, 0x20, 0x75, 0x75, 0x69, 0x64,
  0x2e, 0x63, 0x2f, 0x75, 0x75, 0x69, 0x64, 0x2e,
  0x68, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x0a, 0x43, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28, 0x63,
  0x29, 0x20, 0x31, 0x39, 0x39, 0x30, 0x2d, 0x20,
  0x31, 0x39, 0x39, 0x33, 0x2c, 0x20, 0x31, 0x39,
  0x39, 0x36, 0x20, 0x4f, 0x70, 0x65, 0x6e, 0x20,
  0x53, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65,
  0x20, 0x46, 0x6f, 0x75, 0x6e, 0x64, 0x61, 0x74,
  0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x49, 0x6e, 0x63,
  0x2e, 0x0a, 0x43, 0x6f, 0x70, 0x79, 0x72, 0x69,
  0x67, 0x68, 0x74, 0x20, 0x28, 0x63, 0x29, 0x20,
  0x31, 0x39, 0x38, 0x39, 0x20, 0x62, 0x79, 0x20,
  0x48, 0x65, 0x77, 0x6c, 0x65, 0x74, 0x74, 0x2d,
  0x50, 0x61, 0x63, 0x6b, 0x61, 0x72, 0x64, 0x20,
  0x43, 0x6f, 0x6d, 0x70, 0x61, 0x6e, 0x79, 0x2c,
  0x20, 0x50, 0x61, 0x6c, 0x6f, 0x20, 0x41, 0x6c,
  0x74, 0x6f, 0x2c, 0x20, 0x43, 0x61, 0x2e, 0x20,
  0x26, 0x0a, 0x44, 0x69, 0x67, 0x69, 0x74, 0x61,
  0x6c, 0x20, 0x45, 0x71, 0x75, 0x69, 0x70, 0x6d,
  0x65, 0x6e, 0x74, 0x20, 0x43, 0x6f, 0x72, 0x70,
  0x6f, 0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2c,
  0x20, 0x4d, 0x61, 0x79, 0x6e, 0x61, 0x72, 0x64,
  0x2c, 0x20, 0x4d, 0x61, 0x73, 0x73, 0x2e, 0x0a,
  0x43, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68,
  0x74, 0x20, 0x28, 0x63, 0x29, 0x20, 0x31, 0x39,
  0x39, 0x38, 0x20, 0x4d, 0x69, 0x63, 0x72, 0x6f,
  0x73, 0x6f, 0x66, 0x74, 0x2e, 0x0a, 0x54, 0x6f,
  0x20, 0x61, 0x6e, 0x79, 0x6f, 0x6e, 0x65, 0x20,
  0x77, 0x68, 0x6f, 0x20, 0x61, 0x63, 0x6b, 0x6e,
  0x6f, 0x77, 0x6c, 0x65, 0x64, 0x67, 0x65, 0x73,
  0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x74, 0x68,
  0x69, 0x73, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20,
  0x69, 0x73, 0x20, 0x70, 0x72, 0x6f, 0x76, 0x69,
  0x64, 0x65, 0x64, 0x20, 0x22, 0x41, 0x53, 0x20,
  0x49, 0x53, 0x22, 0x0a, 0x77, 0x69, 0x74, 0x68,
  0x6f, 0x75, 0x74, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x65, 0x78, 0x70, 0x72, 0x65, 0x73, 0x73, 0x20,
  0x6f, 0x72, 0x20, 0x69, 0x6d, 0x70, 0x6c, 0x69,
  0x65, 0x64, 0x20, 0x77, 0x61, 0x72, 0x72, 0x61,
  0x6e, 0x74, 0x79, 0x3a, 0x20, 0x70, 0x65, 0x72,
  0x6d, 0x69, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20,
  0x74, 0x6f, 0x20, 0x75, 0x73, 0x65, 0x2c, 0x20,
  0x63, 0x6f, 0x70, 0x79, 0x2c, 0x0a, 0x6d, 0x6f,
  0x64, 0x69, 0x66, 0x79, 0x2c, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x65, 0x20, 0x74, 0x68, 0x69,
  0x73, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x70,
  0x75, 0x72, 0x70, 0x6f, 0x73, 0x65, 0x20, 0x69,
  0x73, 0x20, 0x68, 0x65, 0x72, 0x65, 0x62, 0x79,
  0x0a, 0x67, 0x72, 0x61, 0x6e, 0x74, 0x65, 0x64,
  0x20, 0x77, 0x69, 0x74, 0x68, 0x6f, 0x75, 0x74,
  0x20, 0x66, 0x65, 0x65, 0x2c, 0x20, 0x70, 0x72,
  0x6f, 0x76, 0x69, 0x64, 0x65, 0x64, 0x20, 0x74,
  0x68, 0x61, 0x74, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x61, 0x62, 0x6f, 0x76, 0x65, 0x20, 0x63, 0x6f,
  0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20,
  0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x73, 0x20,
  0x61, 0x6e, 0x64, 0x0a, 0x74, 0x68, 0x69, 0x73,
  0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x20,
  0x61, 0x70, 0x70, 0x65, 0x61, 0x72, 0x73, 0x20,
  0x69, 0x6e, 0x20, 0x61, 0x6c, 0x6c, 0x20, 0x73,
  0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x63, 0x6f,
  0x64, 0x65, 0x20, 0x63, 0x6f, 0x70, 0x69, 0x65,
  0x73, 0x2c, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x74,
  0x68, 0x61, 0x74, 0x20, 0x6e, 0x6f, 0x6e, 0x65,
  0x20, 0x6f, 0x66, 0x0a, 0x74, 0x68, 0x65, 0x20,
  0x6e, 0x61, 0x6d, 0x65, 0x73, 0x20, 0x6f, 0x66,
  0x20, 0x4f, 0x70, 0x65, 0x6e, 0x20, 0x53, 0x6f,
  0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x20, 0x46,
  0x6f, 0x75, 0x6e, 0x64, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x2c, 0x20, 0x49, 0x6e, 0x63, 0x2e, 0x2c,
  0x20, 0x48, 0x65, 0x77, 0x6c, 0x65, 0x74, 0x74,
  0x2d, 0x50, 0x61, 0x63, 0x6b, 0x61, 0x72, 0x64,
  0x0a, 0x43, 0x6f, 0x6d, 0x70, 0x61, 0x6e, 0x79,
  0x2c, 0x20, 0x4d, 0x69, 0x63, 0x72, 0x6f, 0x73,
  0x6f, 0x66, 0x74, 0x2c, 0x20, 0x6f, 0x72, 0x20,
  0x44, 0x69, 0x67, 0x69, 0x74, 0x61, 0x6c, 0x20,
  0x45, 0x71, 0x75, 0x69, 0x70, 0x6d, 0x65, 0x6e,
  0x74, 0x20, 0x43, 0x6f, 0x72, 0x70, 0x6f, 0x72,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x62, 0x65,
  0x20, 0x75, 0x73, 0x65, 0x64, 0x20, 0x69, 0x6e,
  0x0a, 0x61, 0x64, 0x76, 0x65, 0x72, 0x74, 0x69,
  0x73, 0x69, 0x6e, 0x67, 0x20, 0x6f, 0x72, 0x20,
  0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x69, 0x74,
  0x79, 0x20, 0x70, 0x65, 0x72, 0x74, 0x61, 0x69,
  0x6e, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x6f, 0x20,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x73, 0x6f, 0x66, 0x74,
  0x77, 0x61, 0x72, 0x65, 0x0a, 0x77, 0x69, 0x74,
  0x68, 0x6f, 0x75, 0x74, 0x20, 0x73, 0x70, 0x65,
  0x63, 0x69, 0x66, 0x69, 0x63, 0x2c, 0x20, 0x77,
  0x72, 0x69, 0x74, 0x74, 0x65, 0x6e, 0x20, 0x70,
  0x72, 0x69, 0x6f, 0x72, 0x20, 0x70, 0x65, 0x72,
  0x6d, 0x69, 0x73, 0x73, 0x69, 0x6f, 0x6e, 0x2e,
  0x20, 0x4e, 0x65, 0x69, 0x74, 0x68, 0x65, 0x72,
  0x20, 0x4f, 0x70, 0x65, 0x6e, 0x20, 0x53, 0x6f,
  0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x0a, 0x46,
  0x6f, 0x75, 0x6e, 0x64, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x2c, 0x20, 0x49, 0x6e, 0x63, 0x2e, 0x2c,
  0x20, 0x48, 0x65, 0x77, 0x6c, 0x65, 0x74, 0x74,
  0x2d, 0x50, 0x61, 0x63, 0x6b, 0x61, 0x72, 0x64,
  0x20, 0x43, 0x6f, 0x6d, 0x70, 0x61, 0x6e, 0x79,
  0x2c, 0x20, 0x4d, 0x69, 0x63, 0x72, 0x6f, 0x73,
  0x6f, 0x66, 0x74, 0x2c, 0x20, 0x6e, 0x6f, 0x72,
  0x20, 0x44, 0x69, 0x67, 0x69, 0x74, 0x61, 0x6c,
  0x0a, 0x45, 0x71, 0x75, 0x69, 0x70, 0x6d, 0x65,
  0x6e, 0x74, 0x20, 0x43, 0x6f, 0x72, 0x70, 0x6f,
  0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6d,
  0x61, 0x6b, 0x65, 0x73, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x72, 0x65, 0x70, 0x72, 0x65, 0x73, 0x65,
  0x6e, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x20, 0x61, 0x62, 0x6f, 0x75, 0x74, 0x20, 0x74,
  0x68, 0x65, 0x0a, 0x73, 0x75, 0x69, 0x74, 0x61,
  0x62, 0x69, 0x6c, 0x69, 0x74, 0x79, 0x20, 0x6f,
  0x66, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x73,
  0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x20,
  0x66, 0x6f, 0x72, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x70, 0x75, 0x72, 0x70, 0x6f, 0x73, 0x65, 0x2e,
  0x0a, 0x0a, 0x0a, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x67,
  0x6c, 0x6f, 0x62, 0x6d, 0x61, 0x74, 0x63, 0x68,
  0x2e, 0x63, 0x2f, 0x67, 0x6c, 0x6f, 0x62, 0x6d,
  0x61, 0x74, 0x63, 0x68, 0x2e, 0x68, 0x0a, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x0a, 0x43, 0x6f, 0x70, 0x79, 0x72,
  0x69, 0x67, 0x68, 0x74, 0x20, 0x31, 0x39, 0x39,
  0x34, 0x20, 0x43, 0x68, 0x72, 0x69, 0x73, 0x74,
  0x6f, 0x70, 0x68, 0x65, 0x72, 0x20, 0x53, 0x65,
  0x69, 0x77, 0x61, 0x6c, 0x64, 0x2e, 0x20, 0x20,
  0x41, 0x6c, 0x6c, 0x20, 0x72, 0x69, 0x67, 0x68,
  0x74, 0x73, 0x20, 0x72, 0x65, 0x73, 0x65, 0x72,
  0x76, 0x65, 0x64, 0x2e, 0x0a, 0x0a, 0x4c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x69, 0x73,
  0x20, 0x68, 0x65, 0x72, 0x65, 0x62, 0x79, 0x20,
  0x67, 0x72, 0x61, 0x6e, 0x74, 0x65, 0x64, 0x20,
  0x74, 0x6f, 0x20, 0x75, 0x73, 0x65, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x73, 0x6f, 0x66, 0x74,
  0x77, 0x61, 0x72, 0x65, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x65, 0x20, 0x69, 0x74, 0x0a, 0x66,
  0x72, 0x65, 0x65, 0x6c, 0x79, 0x2c, 0x20, 0x61,
  0x73, 0x20, 0x6c, 0x6f, 0x6e, 0x67, 0x20, 0x61,
  0x73, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x63,
  0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74,
  0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x20,
  0x69, 0x73, 0x20, 0x72, 0x65, 0x74, 0x61, 0x69,
  0x6e, 0x65, 0x64, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x63, 0x61,
  0x74, 0x69, 0x6f, 0x6e, 0x73, 0x0a, 0x61, 0x72,
  0x65, 0x20, 0x63, 0x6c, 0x65, 0x61, 0x72, 0x6c,
  0x79, 0x20, 0x6d, 0x61, 0x72, 0x6b, 0x65, 0x64,
  0x2e, 0x0a, 0x0a, 0x41, 0x4c, 0x4c, 0x20, 0x57,
  0x41, 0x52, 0x52, 0x41, 0x4e, 0x54, 0x49, 0x45,
  0x53, 0x20, 0x41, 0x52, 0x45, 0x20, 0x48, 0x45,
  0x52, 0x45, 0x42, 0x59, 0x20, 0x44, 0x49, 0x53,
  0x43, 0x4c, 0x41, 0x49, 0x4d, 0x45, 0x44, 0x2e,
  0x0a, 0x0a, 0x0a, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x6d,
  0x64, 0x35, 0x2e, 0x63, 0x2f, 0x6d, 0x64, 0x35,
  0x2e, 0x68, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x0a, 0x54, 0x68, 0x69, 0x73, 0x20,
  0x69, 0x73, 0x20, 0x61, 0x6e, 0x20, 0x4f, 0x70,
  0x65, 0x6e, 0x53, 0x53, 0x4c, 0x2d, 0x63, 0x6f,
  0x6d, 0x70, 0x61, 0x74, 0x69, 0x62, 0x6c, 0x65,
  0x20, 0x69, 0x6d, 0x70, 0x6c, 0x65, 0x6d, 0x65,
  0x6e, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x52,
  0x53, 0x41, 0x20, 0x44, 0x61, 0x74, 0x61, 0x20,
  0x53, 0x65, 0x63, 0x75, 0x72, 0x69, 0x74, 0x79,
  0x2c, 0x20, 0x49, 0x6e, 0x63, 0x2e, 0x0a, 0x4d,
  0x44, 0x35, 0x20, 0x4d, 0x65, 0x73, 0x73, 0x61,
  0x67, 0x65, 0x2d, 0x44, 0x69, 0x67, 0x65, 0x73,
  0x74, 0x20, 0x41, 0x6c, 0x67, 0x6f, 0x72, 0x69,
  0x74, 0x68, 0x6d, 0x20, 0x28, 0x52, 0x46, 0x43,
  0x20, 0x31, 0x33, 0x32, 0x31, 0x29, 0x2e, 0x0a,
  0x0a, 0x48, 0x6f, 0x6d, 0x65, 0x70, 0x61, 0x67,
  0x65, 0x3a, 0x0a, 0x68, 0x74, 0x74, 0x70, 0x3a,
  0x2f, 0x2f, 0x6f, 0x70, 0x65, 0x6e, 0x77, 0x61,
  0x6c, 0x6c, 0x2e, 0x69, 0x6e, 0x66, 0x6f, 0x2f,
  0x77, 0x69, 0x6b, 0x69, 0x2f, 0x70, 0x65, 0x6f,
  0x70, 0x6c, 0x65, 0x2f, 0x73, 0x6f, 0x6c, 0x61,
  0x72, 0x2f, 0x73, 0x6f, 0x66, 0x74, 0x77, 0x61,
  0x72, 0x65, 0x2f, 0x70, 0x75, 0x62, 0x6c, 0x69,
  0x63, 0x2d, 0x64, 0x6f, 0x6d, 0x61, 0x69, 0x6e,
  0x2d, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x2d,
  0x63, 0x6f, 0x64, 0x65, 0x2f, 0x6d, 0x64, 0x35,
  0x0a, 0x0a, 0x41, 0x75, 0x74, 0x68, 0x6f, 0x72,
  0x3a, 0x0a, 0x41, 0x6c, 0x65, 0x78, 0x61, 0x6e,
  0x64, 0x65, 0x72, 0x20, 0x50, 0x65, 0x73, 0x6c,
  0x79, 0x61, 0x6b, 0x2c, 0x20, 0x62, 0x65, 0x74,
  0x74, 0x65, 0x72, 0x20, 0x6b, 0x6e, 0x6f, 0x77,
  0x6e, 0x20, 0x61, 0x73, 0x20, 0x53, 0x6f, 0x6c,
  0x61, 0x72, 0x20, 0x44, 0x65, 0x73, 0x69, 0x67,
  0x6e, 0x65, 0x72, 0x20, 0x3c, 0x73, 0x6f, 0x6c,
  0x61, 0x72, 0x20, 0x61, 0x74, 0x20, 0x6f, 0x70,
  0x65, 0x6e, 0x77, 0x61, 0x6c, 0x6c, 0x2e, 0x63,
  0x6f, 0x6d, 0x3e, 0x0a, 0x0a, 0x54, 0x68, 0x69,
  0x73, 0x20, 0x73, 0x6f, 0x66, 0x74, 0x77, 0x61,
  0x72, 0x65, 0x20, 0x77, 0x61, 0x73, 0x20, 0x77,
  0x72, 0x69, 0x74, 0x74, 0x65, 0x6e, 0x20, 0x62,
  0x79, 0x20, 0x41, 0x6c, 0x65, 0x78, 0x61, 0x6e,
  0x64, 0x65, 0x72, 0x20, 0x50, 0x65, 0x73, 0x6c,
  0x79, 0x61, 0x6b, 0x20, 0x69, 0x6e, 0x20, 0x32,
  0x30, 0x30, 0x31, 0x2e, 0x20, 0x20, 0x4e, 0x6f,
  0x20, 0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67,
  0x68, 0x74, 0x20, 0x69, 0x73, 0x0a, 0x63, 0x6c,
  0x61, 0x69, 0x6d, 0x65, 0x64, 0x2c, 0x20, 0x61,
  0x6e, 0x64, 0x20, 0x74, 0x68, 0x65, 0x20, 0x73,
  0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x20,
  0x69, 0x73, 0x20, 0x68, 0x65, 0x72, 0x65, 0x62,
  0x79, 0x20, 0x70, 0x6c, 0x61, 0x63, 0x65, 0x64,
  0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x20, 0x64,
  0x6f, 0x6d, 0x61, 0x69, 0x6e, 0x2e, 0x0a, 0x49,
  0x6e, 0x20, 0x63, 0x61, 0x73, 0x65, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x61, 0x74, 0x74, 0x65,
  0x6d, 0x70, 0x74, 0x20, 0x74, 0x6f, 0x20, 0x64,
  0x69, 0x73, 0x63, 0x6c, 0x61, 0x69, 0x6d, 0x20,
  0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68,
  0x74, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x70, 0x6c,
  0x61, 0x63, 0x65, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x73, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65,
  0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x0a,
  0x70, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x20, 0x64,
  0x6f, 0x6d, 0x61, 0x69, 0x6e, 0x20, 0x69, 0x73,
  0x20, 0x64, 0x65, 0x65, 0x6d, 0x65, 0x64, 0x20,
  0x6e, 0x75, 0x6c, 0x6c, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x76, 0x6f, 0x69, 0x64, 0x2c, 0x20, 0x74,
  0x68, 0x65, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x73, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65,
  0x20, 0x69, 0x73, 0x0a, 0x43, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28, 0x63,
  0x29, 0x20, 0x32, 0x30, 0x30, 0x31, 0x20, 0x41,
  0x6c, 0x65, 0x78, 0x61, 0x6e, 0x64, 0x65, 0x72,
  0x20, 0x50, 0x65, 0x73, 0x6c, 0x79, 0x61, 0x6b,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x69, 0x74, 0x20,
  0x69, 0x73, 0x20, 0x68, 0x65, 0x72, 0x65, 0x62,
  0x79, 0x20, 0x72, 0x65, 0x6c, 0x65, 0x61, 0x73,
  0x65, 0x64, 0x20, 0x74, 0x6f, 0x20, 0x74, 0x68,
  0x65, 0x0a, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61,
  0x6c, 0x20, 0x70, 0x75, 0x62, 0x6c, 0x69, 0x63,
  0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x66, 0x6f, 0x6c, 0x6c, 0x6f,
  0x77, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x65, 0x72,
  0x6d, 0x73, 0x3a, 0x0a, 0x0a, 0x52, 0x65, 0x64,
  0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x69, 0x6f, 0x6e, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x75, 0x73, 0x65, 0x20, 0x69, 0x6e, 0x20, 0x73,
  0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x62, 0x69, 0x6e, 0x61, 0x72, 0x79,
  0x20, 0x66, 0x6f, 0x72, 0x6d, 0x73, 0x2c, 0x20,
  0x77, 0x69, 0x74, 0x68, 0x20, 0x6f, 0x72, 0x20,
  0x77, 0x69, 0x74, 0x68, 0x6f, 0x75, 0x74, 0x0a,
  0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x63, 0x61,
  0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x61, 0x72,
  0x65, 0x20, 0x70, 0x65, 0x72, 0x6d, 0x69, 0x74,
  0x74, 0x65, 0x64, 0x2e, 0x0a, 0x0a, 0x54, 0x68,
  0x65, 0x72, 0x65, 0x27, 0x73, 0x20, 0x41, 0x42,
  0x53, 0x4f, 0x4c, 0x55, 0x54, 0x45, 0x4c, 0x59,
  0x20, 0x4e, 0x4f, 0x20, 0x57, 0x41, 0x52, 0x52,
  0x41, 0x4e, 0x54, 0x59, 0x2c, 0x20, 0x65, 0x78,
  0x70, 0x72, 0x65, 0x73, 0x73, 0x20, 0x6f, 0x72,
  0x20, 0x69, 0x6d, 0x70, 0x6c, 0x69, 0x65, 0x64,
  0x2e, 0x0a, 0x0a, 0x0a, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x20,
  0x74, 0x6d, 0x70, 0x66, 0x69, 0x6c, 0x65, 0x70,
  0x6c, 0x75, 0x73, 0x2e, 0x63, 0x2f, 0x74, 0x6d,
  0x70, 0x66, 0x69, 0x6c, 0x65, 0x70, 0x6c, 0x75,
  0x73, 0x2e, 0x68, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x0a, 0x54, 0x68, 0x69, 0x73,
  0x20, 0x53, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20,
  0x43, 0x6f, 0x64, 0x65, 0x20, 0x46, 0x6f, 0x72,
  0x6d, 0x20, 0x69, 0x73, 0x20, 0x73, 0x75, 0x62,
  0x6a, 0x65, 0x63, 0x74, 0x20, 0x74, 0x6f, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x74, 0x65, 0x72, 0x6d,
  0x73, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x4d, 0x6f, 0x7a, 0x69, 0x6c, 0x6c, 0x61,
  0x20, 0x50, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x0a,
  0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x2c,
  0x20, 0x76, 0x2e, 0x20, 0x32, 0x2e, 0x30, 0x2e,
  0x20, 0x49, 0x66, 0x20, 0x61, 0x20, 0x63, 0x6f,
  0x70, 0x79, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x4d, 0x50, 0x4c, 0x20, 0x77, 0x61,
  0x73, 0x20, 0x6e, 0x6f, 0x74, 0x20, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65,
  0x64, 0x20, 0x77, 0x69, 0x74, 0x68, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x0a, 0x66, 0x69, 0x6c, 0x65,
  0x2c, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x63, 0x61,
  0x6e, 0x20, 0x6f, 0x62, 0x74, 0x61, 0x69, 0x6e,
  0x20, 0x6f, 0x6e, 0x65, 0x20, 0x61, 0x74, 0x20,
  0x68, 0x74, 0x74, 0x70, 0x3a, 0x2f, 0x2f, 0x6d,
  0x6f, 0x7a, 0x69, 0x6c, 0x6c, 0x61, 0x2e, 0x6f,
  0x72, 0x67, 0x2f, 0x4d, 0x50, 0x4c, 0x2f, 0x32,
  0x2e, 0x30, 0x2f, 0x2e, 0x0a, 0x0a, 0x43, 0x6f,
  0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20,
  0x28, 0x63, 0x29, 0x20, 0x32, 0x30, 0x31, 0x32,
  0x2d, 0x31, 0x36, 0x20, 0x44, 0x61, 0x76, 0x69,
  0x64, 0x20, 0x49, 0x72, 0x65, 0x6c, 0x61, 0x6e,
  0x64, 0x2c, 0x20, 0x44, 0x49, 0x20, 0x4d, 0x61,
  0x6e, 0x61, 0x67, 0x65, 0x6d, 0x65, 0x6e, 0x74,
  0x20, 0x53, 0x65, 0x72, 0x76, 0x69, 0x63, 0x65,
  0x73, 0x20, 0x50, 0x74, 0x79, 0x20, 0x4c, 0x74,
  0x64, 0x0a, 0x3c, 0x68, 0x74, 0x74, 0x70, 0x3a,
  0x2f, 0x2f, 0x77, 0x77, 0x77, 0x2e, 0x64, 0x69,
  0x2d, 0x6d, 0x67, 0x74, 0x2e, 0x63, 0x6f, 0x6d,
  0x2e, 0x61, 0x75, 0x2f, 0x63, 0x6f, 0x6e, 0x74,
  0x61, 0x63, 0x74, 0x2f, 0x3e, 0x2e, 0x0a, 0x0a,
  0x0a, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x63, 0x6f, 0x6d,
  0x70, 0x61, 0x74, 0x2d, 0x73, 0x72, 0x63, 0x2f,
  0x72, 0x65, 0x61, 0x6c, 0x70, 0x61, 0x74, 0x68,
  0x2e, 0x63, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x0a, 0x43, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28,
  0x63, 0x29, 0x20, 0x32, 0x30, 0x30, 0x33, 0x20,
  0x43, 0x6f, 0x6e, 0x73, 0x74, 0x61, 0x6e, 0x74,
  0x69, 0x6e, 0x20, 0x53, 0x2e, 0x20, 0x53, 0x76,
  0x69, 0x6e, 0x74, 0x73, 0x6f, 0x66, 0x66, 0x20,
  0x3c, 0x6b, 0x6f, 0x73, 0x74, 0x69, 0x6b, 0x40,
  0x69, 0x63, 0x6c, 0x75, 0x62, 0x2e, 0x6e, 0x73,
  0x75, 0x2e, 0x72, 0x75, 0x3e, 0x0a, 0x0a, 0x52,
  0x65, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x75, 0x73, 0x65, 0x20, 0x69, 0x6e,
  0x20, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20,
  0x61, 0x6e, 0x64, 0x20, 0x62, 0x69, 0x6e, 0x61,
  0x72, 0x79, 0x20, 0x66, 0x6f, 0x72, 0x6d, 0x73,
  0x2c, 0x20, 0x77, 0x69, 0x74, 0x68, 0x20, 0x6f,
  0x72, 0x20, 0x77, 0x69, 0x74, 0x68, 0x6f, 0x75,
  0x74, 0x0a, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69,
  0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20,
  0x61, 0x72, 0x65, 0x20, 0x70, 0x65, 0x72, 0x6d,
  0x69, 0x74, 0x74, 0x65, 0x64, 0x20, 0x70, 0x72,
  0x6f, 0x76, 0x69, 0x64, 0x65, 0x64, 0x20, 0x74,
  0x68, 0x61, 0x74, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x66, 0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69, 0x6e,
  0x67, 0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74,
  0x69, 0x6f, 0x6e, 0x73, 0x0a, 0x61, 0x72, 0x65,
  0x20, 0x6d, 0x65, 0x74, 0x3a, 0x0a, 0x31, 0x2e,
  0x20, 0x52, 0x65, 0x64, 0x69, 0x73, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x20, 0x6f, 0x66, 0x20, 0x73, 0x6f, 0x75, 0x72,
  0x63, 0x65, 0x20, 0x63, 0x6f, 0x64, 0x65, 0x20,
  0x6d, 0x75, 0x73, 0x74, 0x20, 0x72, 0x65, 0x74,
  0x61, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x61, 0x62, 0x6f, 0x76, 0x65, 0x20, 0x63, 0x6f,
  0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x0a,
  0x20, 0x20, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x2c, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20,
  0x6c, 0x69, 0x73, 0x74, 0x20, 0x6f, 0x66, 0x20,
  0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x73, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x66, 0x6f, 0x6c, 0x6c, 0x6f,
  0x77, 0x69, 0x6e, 0x67, 0x20, 0x64, 0x69, 0x73,
  0x63, 0x6c, 0x61, 0x69, 0x6d, 0x65, 0x72, 0x2e,
  0x0a, 0x32, 0x2e, 0x20, 0x52, 0x65, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x69, 0x6e, 0x20, 0x62,
  0x69, 0x6e, 0x61, 0x72, 0x79, 0x20, 0x66, 0x6f,
  0x72, 0x6d, 0x20, 0x6d, 0x75, 0x73, 0x74, 0x20,
  0x72, 0x65, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63,
  0x65, 0x20, 0x74, 0x68, 0x65, 0x20, 0x61, 0x62,
  0x6f, 0x76, 0x65, 0x20, 0x63, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x0a, 0x20, 0x20,
  0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x2c,
  0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x6c, 0x69,
  0x73, 0x74, 0x20, 0x6f, 0x66, 0x20, 0x63, 0x6f,
  0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x66, 0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69,
  0x6e, 0x67, 0x20, 0x64, 0x69, 0x73, 0x63, 0x6c,
  0x61, 0x69, 0x6d, 0x65, 0x72, 0x20, 0x69, 0x6e,
  0x20, 0x74, 0x68, 0x65, 0x0a, 0x20, 0x20, 0x20,
  0x64, 0x6f, 0x63, 0x75, 0x6d, 0x65, 0x6e, 0x74,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x61, 0x6e,
  0x64, 0x2f, 0x6f, 0x72, 0x20, 0x6f, 0x74, 0x68,
  0x65, 0x72, 0x20, 0x6d, 0x61, 0x74, 0x65, 0x72,
  0x69, 0x61, 0x6c, 0x73, 0x20, 0x70, 0x72, 0x6f,
  0x76, 0x69, 0x64, 0x65, 0x64, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x20, 0x74, 0x68, 0x65, 0x20, 0x64,
  0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x69, 0x6f, 0x6e, 0x2e, 0x0a, 0x33, 0x2e, 0x20,
  0x54, 0x68, 0x65, 0x20, 0x6e, 0x61, 0x6d, 0x65,
  0x73, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x61, 0x75, 0x74, 0x68, 0x6f, 0x72, 0x73,
  0x20, 0x6d, 0x61, 0x79, 0x20, 0x6e, 0x6f, 0x74,
  0x20, 0x62, 0x65, 0x20, 0x75, 0x73, 0x65, 0x64,
  0x20, 0x74, 0x6f, 0x20, 0x65, 0x6e, 0x64, 0x6f,
  0x72, 0x73, 0x65, 0x20, 0x6f, 0x72, 0x20, 0x70,
  0x72, 0x6f, 0x6d, 0x6f, 0x74, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63,
  0x74, 0x73, 0x20, 0x64, 0x65, 0x72, 0x69, 0x76,
  0x65, 0x64, 0x20, 0x66, 0x72, 0x6f, 0x6d, 0x20,
  0x74, 0x68, 0x69, 0x73, 0x20, 0x73, 0x6f, 0x66,
  0x74, 0x77, 0x61, 0x72, 0x65, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x6f, 0x75, 0x74, 0x20, 0x73, 0x70,
  0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x20, 0x70,
  0x72, 0x69, 0x6f, 0x72, 0x20, 0x77, 0x72, 0x69,
  0x74, 0x74, 0x65, 0x6e, 0x0a, 0x20, 0x20, 0x20,
  0x70, 0x65, 0x72, 0x6d, 0x69, 0x73, 0x73, 0x69,
  0x6f, 0x6e, 0x2e, 0x0a, 0x0a, 0x54, 0x48, 0x49,
  0x53, 0x20, 0x53, 0x4f, 0x46, 0x54, 0x57, 0x41,
  0x52, 0x45, 0x20, 0x49, 0x53, 0x20, 0x50, 0x52,
  0x4f, 0x56, 0x49, 0x44, 0x45, 0x44, 0x20, 0x42,
  0x59, 0x20, 0x54, 0x48, 0x45, 0x20, 0x41, 0x55,
  0x54, 0x48, 0x4f, 0x52, 0x20, 0x41, 0x4e, 0x44,
  0x20, 0x43, 0x4f, 0x4e, 0x54, 0x52, 0x49, 0x42,
  0x55, 0x54, 0x4f, 0x52, 0x53, 0x20, 0x60, 0x60,
  0x41, 0x53, 0x20, 0x49, 0x53, 0x27, 0x27, 0x20,
  0x41, 0x4e, 0x44, 0x0a, 0x41, 0x4e, 0x59, 0x20,
  0x45, 0x58, 0x50, 0x52, 0x45, 0x53, 0x53, 0x20,
  0x4f, 0x52, 0x20, 0x49, 0x4d, 0x50, 0x4c, 0x49,
  0x45, 0x44, 0x20, 0x57, 0x41, 0x52, 0x52, 0x41,
  0x4e, 0x54, 0x49, 0x45, 0x53, 0x2c, 0x20, 0x49,
  0x4e, 0x43, 0x4c, 0x55, 0x44, 0x49, 0x4e, 0x47,
  0x2c, 0x20, 0x42, 0x55, 0x54, 0x20, 0x4e, 0x4f,
  0x54, 0x20, 0x4c, 0x49, 0x4d, 0x49, 0x54, 0x45,
  0x44, 0x20, 0x54, 0x4f, 0x2c, 0x20, 0x54, 0x48,
  0x45, 0x0a, 0x49, 0x4d, 0x50, 0x4c, 0x49, 0x45,
  0x44, 0x20, 0x57, 0x41, 0x52, 0x52, 0x41, 0x4e,
  0x54, 0x49, 0x45, 0x53, 0x20, 0x4f, 0x46, 0x20,
  0x4d, 0x45, 0x52, 0x43, 0x48, 0x41, 0x4e, 0x54,
  0x41, 0x42, 0x49, 0x4c, 0x49, 0x54, 0x59, 0x20,
  0x41, 0x4e, 0x44, 0x20, 0x46, 0x49, 0x54, 0x4e,
  0x45, 0x53, 0x53, 0x20, 0x46, 0x4f, 0x52, 0x20,
  0x41, 0x20, 0x50, 0x41, 0x52, 0x54, 0x49, 0x43,
  0x55, 0x4c, 0x41, 0x52, 0x20, 0x50, 0x55, 0x52,
  0x50, 0x4f, 0x53, 0x45, 0x0a, 0x41, 0x52, 0x45,
  0x20, 0x44, 0x49, 0x53, 0x43, 0x4c, 0x41, 0x49,
  0x4d, 0x45, 0x44, 0x2e, 0x20, 0x20, 0x49, 0x4e,
  0x20, 0x4e, 0x4f, 0x20, 0x45, 0x56, 0x45, 0x4e,
  0x54, 0x20, 0x53, 0x48, 0x41, 0x4c, 0x4c, 0x20,
  0x54, 0x48, 0x45, 0x20, 0x41, 0x55, 0x54, 0x48,
  0x4f, 0x52, 0x20, 0x4f, 0x52, 0x20, 0x43, 0x4f,
  0x4e, 0x54, 0x52, 0x49, 0x42, 0x55, 0x54, 0x4f,
  0x52, 0x53, 0x20, 0x42, 0x45, 0x20, 0x4c, 0x49,
  0x41, 0x42, 0x4c, 0x45, 0x0a, 0x46, 0x4f, 0x52,
  0x20, 0x41, 0x4e, 0x59, 0x20, 0x44, 0x49, 0x52,
  0x45, 0x43, 0x54, 0x2c, 0x20, 0x49, 0x4e, 0x44,
  0x49, 0x52, 0x45, 0x43, 0x54, 0x2c, 0x20, 0x49,
  0x4e, 0x43, 0x49, 0x44, 0x45, 0x4e, 0x54, 0x41,
  0x4c, 0x2c, 0x20, 0x53, 0x50, 0x45, 0x43, 0x49,
  0x41, 0x4c, 0x2c, 0x20, 0x45, 0x58, 0x45, 0x4d,
  0x50, 0x4c, 0x41, 0x52, 0x59, 0x2c, 0x20, 0x4f,
  0x52, 0x20, 0x43, 0x4f, 0x4e, 0x53, 0x45, 0x51,
  0x55, 0x45, 0x4e, 0x54, 0x49, 0x41, 0x4c, 0x0a,
  0x44, 0x41, 0x4d, 0x41, 0x47, 0x45, 0x53, 0x20,
  0x28, 0x49, 0x4e, 0x43, 0x4c, 0x55, 0x44, 0x49,
  0x4e, 0x47, 0x2c, 0x20, 0x42, 0x55, 0x54, 0x20,
  0x4e, 0x4f, 0x54, 0x20, 0x4c, 0x49, 0x4d, 0x49,
  0x54, 0x45, 0x44, 0x20, 0x54, 0x4f, 0x2c, 0x20,
  0x50, 0x52, 0x4f, 0x43, 0x55, 0x52, 0x45, 0x4d,
  0x45, 0x4e, 0x54, 0x20, 0x4f, 0x46, 0x20, 0x53,
  0x55, 0x42, 0x53, 0x54, 0x49, 0x54, 0x55, 0x54,
  0x45, 0x20, 0x47, 0x4f, 0x4f, 0x44, 0x53, 0x0a,
  0x4f, 0x52, 0x20, 0x53, 0x45, 0x52, 0x56, 0x49,
  0x43, 0x45, 0x53, 0x3b, 0x20, 0x4c, 0x4f, 0x53,
  0x53, 0x20, 0x4f, 0x46, 0x20, 0x55, 0x53, 0x45,
  0x2c, 0x20, 0x44, 0x41, 0x54, 0x41, 0x2c, 0x20,
  0x4f, 0x52, 0x20, 0x50, 0x52, 0x4f, 0x46, 0x49,
  0x54, 0x53, 0x3b, 0x20, 0x4f, 0x52, 0x20, 0x42,
  0x55, 0x53, 0x49, 0x4e, 0x45, 0x53, 0x53, 0x20,
  0x49, 0x4e, 0x54, 0x45, 0x52, 0x52, 0x55, 0x50,
  0x54, 0x49, 0x4f, 0x4e, 0x29, 0x0a, 0x48, 0x4f,
  0x57, 0x45, 0x56, 0x45, 0x52, 0x20, 0x43, 0x41,
  0x55, 0x53, 0x45, 0x44, 0x20, 0x41, 0x4e, 0x44,
  0x20, 0x4f, 0x4e, 0x20, 0x41, 0x4e, 0x59, 0x20,
  0x54, 0x48, 0x45, 0x4f, 0x52, 0x59, 0x20, 0x4f,
  0x46, 0x20, 0x4c, 0x49, 0x41, 0x42, 0x49, 0x4c,
  0x49, 0x54, 0x59, 0x2c, 0x20, 0x57, 0x48, 0x45,
  0x54, 0x48, 0x45, 0x52, 0x20, 0x49, 0x4e, 0x20,
  0x43, 0x4f, 0x4e, 0x54, 0x52, 0x41, 0x43, 0x54,
  0x2c, 0x20, 0x53, 0x54, 0x52, 0x49, 0x43, 0x54,
  0x0a, 0x4c, 0x49, 0x41, 0x42, 0x49, 0x4c, 0x49,
  0x54, 0x59, 0x2c, 0x20, 0x4f, 0x52, 0x20, 0x54,
  0x4f, 0x52, 0x54, 0x20, 0x28, 0x49, 0x4e, 0x43,
  0x4c, 0x55, 0x44, 0x49, 0x4e, 0x47, 0x20, 0x4e,
  0x45, 0x47, 0x4c, 0x49, 0x47, 0x45, 0x4e, 0x43,
  0x45, 0x20, 0x4f, 0x52, 0x20, 0x4f, 0x54, 0x48,
  0x45, 0x52, 0x57, 0x49, 0x53, 0x45, 0x29, 0x20,
  0x41, 0x52, 0x49, 0x53, 0x49, 0x4e, 0x47, 0x20,
  0x49, 0x4e, 0x20, 0x41, 0x4e, 0x59, 0x20, 0x57,
  0x41, 0x59, 0x0a, 0x4f, 0x55, 0x54, 0x20, 0x4f,
  0x46, 0x20, 0x54, 0x48, 0x45, 0x20, 0x55, 0x53,
  0x45, 0x20, 0x4f, 0x46, 0x20, 0x54, 0x48, 0x49,
  0x53, 0x20, 0x53, 0x4f, 0x46, 0x54, 0x57, 0x41,
  0x52, 0x45, 0x2c, 0x20, 0x45, 0x56, 0x45, 0x4e,
  0x20, 0x49, 0x46, 0x20, 0x41, 0x44, 0x56, 0x49,
  0x53, 0x45, 0x44, 0x20, 0x4f, 0x46, 0x20, 0x54,
  0x48, 0x45, 0x20, 0x50, 0x4f, 0x53, 0x53, 0x49,
  0x42, 0x49, 0x4c, 0x49, 0x54, 0x59, 0x20, 0x4f,
  0x46, 0x0a, 0x53, 0x55, 0x43, 0x48, 0x20, 0x44,
  0x41, 0x4d, 0x41, 0x47, 0x45, 0x2e, 0x0a, 0x0a,
  0x0a, 0x4c, 0x69, 0x73, 0x65, 0x6e, 0x73, 0x65,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x63, 0x6f, 0x6d,
  0x70, 0x61, 0x74, 0x2d, 0x73, 0x72, 0x63, 0x2f,
  0x73, 0x6e, 0x70, 0x72, 0x69, 0x6e, 0x74, 0x66,
  0x2e, 0x63, 0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x0a, 0x43, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28,
  0x63, 0x29, 0x20, 0x31, 0x39, 0x39, 0x35, 0x20,
  0x50, 0x61, 0x74, 0x72, 0x69, 0x63, 0x6b, 0x20,
  0x50, 0x6f, 0x77, 0x65, 0x6c, 0x6c, 0x2e, 0x0a,
  0x0a, 0x54, 0x68, 0x69, 0x73, 0x20, 0x63, 0x6f,
  0x64, 0x65, 0x20, 0x69, 0x73, 0x20, 0x62, 0x61,
  0x73, 0x65, 0x64, 0x20, 0x6f, 0x6e, 0x20, 0x63,
  0x6f, 0x64, 0x65, 0x20, 0x77, 0x72, 0x69, 0x74,
  0x74, 0x65, 0x6e, 0x20, 0x62, 0x79, 0x20, 0x50,
  0x61, 0x74, 0x72, 0x69, 0x63, 0x6b, 0x20, 0x50,
  0x6f, 0x77, 0x65, 0x6c, 0x6c, 0x20, 0x3c, 0x70,
  0x61, 0x70, 0x6f, 0x77, 0x65, 0x6c, 0x6c, 0x40,
  0x61, 0x73, 0x74, 0x61, 0x72, 0x74, 0x2e, 0x63,
  0x6f, 0x6d, 0x3e, 0x2e, 0x0a, 0x49, 0x74, 0x20,
  0x6d, 0x61, 0x79, 0x20, 0x62, 0x65, 0x20, 0x75,
  0x73, 0x65, 0x64, 0x20, 0x66, 0x6f, 0x72, 0x20,
  0x61, 0x6e, 0x79, 0x20, 0x70, 0x75, 0x72, 0x70,
  0x6f, 0x73, 0x65, 0x20, 0x61, 0x73, 0x20, 0x6c,
  0x6f, 0x6e, 0x67, 0x20, 0x61, 0x73, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x6e, 0x6f, 0x74, 0x69,
  0x63, 0x65, 0x20, 0x72, 0x65, 0x6d, 0x61, 0x69,
  0x6e, 0x73, 0x20, 0x69, 0x6e, 0x74, 0x61, 0x63,
  0x74, 0x20, 0x6f, 0x6e, 0x20, 0x61, 0x6c, 0x6c,
  0x0a, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20,
  0x63, 0x6f, 0x64, 0x65, 0x20, 0x64, 0x69, 0x73,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f,
  0x6e, 0x73, 0x2e, 0x0a, 0x0a, 0x43, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28,
  0x63, 0x29, 0x20, 0x32, 0x30, 0x30, 0x38, 0x20,
  0x48, 0x6f, 0x6c, 0x67, 0x65, 0x72, 0x20, 0x57,
  0x65, 0x69, 0x73, 0x73, 0x2e, 0x0a, 0x0a, 0x54,
  0x68, 0x69, 0x73, 0x20, 0x76, 0x65, 0x72, 0x73,
  0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x63, 0x6f, 0x64, 0x65, 0x20,
  0x69, 0x73, 0x20, 0x6d, 0x61, 0x69, 0x6e, 0x74,
  0x61, 0x69, 0x6e, 0x65, 0x64, 0x20, 0x62, 0x79,
  0x20, 0x48, 0x6f, 0x6c, 0x67, 0x65, 0x72, 0x20,
  0x57, 0x65, 0x69, 0x73, 0x73, 0x20, 0x3c, 0x68,
  0x6f, 0x6c, 0x67, 0x65, 0x72, 0x40, 0x6a, 0x68,
  0x77, 0x65, 0x69, 0x73, 0x73, 0x2e, 0x64, 0x65,
  0x3e, 0x2e, 0x0a, 0x4d, 0x79, 0x20, 0x63, 0x68,
  0x61, 0x6e, 0x67, 0x65, 0x73, 0x20, 0x74, 0x6f,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x63, 0x6f, 0x64,
  0x65, 0x20, 0x6d, 0x61, 0x79, 0x20, 0x66, 0x72,
  0x65, 0x65, 0x6c, 0x79, 0x20, 0x62, 0x65, 0x20,
  0x75, 0x73, 0x65, 0x64, 0x2c, 0x20, 0x6d, 0x6f,
  0x64, 0x69, 0x66, 0x69, 0x65, 0x64, 0x20, 0x61,
  0x6e, 0x64, 0x2f, 0x6f, 0x72, 0x20, 0x72, 0x65,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x65, 0x64, 0x20, 0x66, 0x6f, 0x72, 0x0a,
  0x61, 0x6e, 0x79, 0x20, 0x70, 0x75, 0x72, 0x70,
  0x6f, 0x73, 0x65, 0x2e, 0x20, 0x20, 0x49, 0x74,
  0x20, 0x77, 0x6f, 0x75, 0x6c, 0x64, 0x20, 0x62,
  0x65, 0x20, 0x6e, 0x69, 0x63, 0x65, 0x20, 0x69,
  0x66, 0x20, 0x61, 0x64, 0x64, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x66, 0x69, 0x78, 0x65, 0x73, 0x20, 0x74, 0x6f,
  0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x66, 0x69,
  0x6c, 0x65, 0x20, 0x28, 0x69, 0x6e, 0x63, 0x6c,
  0x75, 0x64, 0x69, 0x6e, 0x67, 0x0a, 0x74, 0x72,
  0x69, 0x76, 0x69, 0x61, 0x6c, 0x20, 0x63, 0x6f,
  0x64, 0x65, 0x20, 0x63, 0x6c, 0x65, 0x61, 0x6e,
  0x75, 0x70, 0x73, 0x29, 0x20, 0x77, 0x6f, 0x75,
  0x6c, 0x64, 0x20, 0x62, 0x65, 0x20, 0x73, 0x65,
  0x6e, 0x74, 0x20, 0x62, 0x61, 0x63, 0x6b, 0x20,
  0x69, 0x6e, 0x20, 0x6f, 0x72, 0x64, 0x65, 0x72,
  0x20, 0x74, 0x6f, 0x20, 0x6c, 0x65, 0x74, 0x20,
  0x6d, 0x65, 0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75,
  0x64, 0x65, 0x20, 0x74, 0x68, 0x65, 0x6d, 0x20,
  0x69, 0x6e, 0x0a, 0x74, 0x68, 0x65, 0x20, 0x76,
  0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e, 0x20, 0x61,
  0x76, 0x61, 0x69, 0x6c, 0x61, 0x62, 0x6c, 0x65,
  0x20, 0x61, 0x74, 0x20, 0x3c, 0x68, 0x74, 0x74,
  0x70, 0x3a, 0x2f, 0x2f, 0x77, 0x77, 0x77, 0x2e,
  0x6a, 0x68, 0x77, 0x65, 0x69, 0x73, 0x73, 0x2e,
  0x64, 0x65, 0x2f, 0x73, 0x6f, 0x66, 0x74, 0x77,
  0x61, 0x72, 0x65, 0x2f, 0x73, 0x6e, 0x70, 0x72,
  0x69, 0x6e, 0x74, 0x66, 0x2e, 0x68, 0x74, 0x6d,
  0x6c, 0x3e, 0x2e, 0x0a, 0x48, 0x6f, 0x77, 0x65,
  0x76, 0x65, 0x72, 0x2c, 0x20, 0x74, 0x68, 0x69,
  0x73, 0x20, 0x69, 0x73, 0x20, 0x6e, 0x6f, 0x74,
  0x20, 0x61, 0x20, 0x72, 0x65, 0x71, 0x75, 0x69,
  0x72, 0x65, 0x6d, 0x65, 0x6e, 0x74, 0x20, 0x66,
  0x6f, 0x72, 0x20, 0x75, 0x73, 0x69, 0x6e, 0x67,
  0x20, 0x6f, 0x72, 0x20, 0x72, 0x65, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69,
  0x6e, 0x67, 0x20, 0x28, 0x70, 0x6f, 0x73, 0x73,
  0x69, 0x62, 0x6c, 0x79, 0x0a, 0x6d, 0x6f, 0x64,
  0x69, 0x66, 0x69, 0x65, 0x64, 0x29, 0x20, 0x76,
  0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e, 0x73, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20,
  0x66, 0x69, 0x6c, 0x65, 0x2c, 0x20, 0x6e, 0x6f,
  0x72, 0x20, 0x69, 0x73, 0x20, 0x6c, 0x65, 0x61,
  0x76, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x69,
  0x73, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65,
  0x20, 0x69, 0x6e, 0x74, 0x61, 0x63, 0x74, 0x20,
  0x6d, 0x61, 0x6e, 0x64, 0x61, 0x74, 0x6f, 0x72,
  0x79, 0x2e, 0x0a, 0x0a, 0x0a, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x65, 0x20, 0x66, 0x6f, 0x72,
  0x20, 0x70, 0x79, 0x6d, 0x6f, 0x6e, 0x67, 0x6f,
  0x0a, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x41, 0x70, 0x61, 0x63, 0x68, 0x65, 0x20,
  0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x56, 0x65, 0x72, 0x73, 0x69,
  0x6f, 0x6e, 0x20, 0x32, 0x2e, 0x30, 0x2c, 0x20,
  0x4a, 0x61, 0x6e, 0x75, 0x61, 0x72, 0x79, 0x20,
  0x32, 0x30, 0x30, 0x34, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x68, 0x74, 0x74,
  0x70, 0x3a, 0x2f, 0x2f, 0x77, 0x77, 0x77, 0x2e,
  0x61, 0x70, 0x61, 0x63, 0x68, 0x65, 0x2e, 0x6f,
  0x72, 0x67, 0x2f, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x73, 0x2f, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x54, 0x45, 0x52, 0x4d, 0x53, 0x20, 0x41,
  0x4e, 0x44, 0x20, 0x43, 0x4f, 0x4e, 0x44, 0x49,
  0x54, 0x49, 0x4f, 0x4e, 0x53, 0x20, 0x46, 0x4f,
  0x52, 0x20, 0x55, 0x53, 0x45, 0x2c, 0x20, 0x52,
  0x45, 0x50, 0x52, 0x4f, 0x44, 0x55, 0x43, 0x54,
  0x49, 0x4f, 0x4e, 0x2c, 0x20, 0x41, 0x4e, 0x44,
  0x20, 0x44, 0x49, 0x53, 0x54, 0x52, 0x49, 0x42,
  0x55, 0x54, 0x49, 0x4f, 0x4e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x31, 0x2e, 0x20, 0x44, 0x65, 0x66,
  0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x22, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x22, 0x20, 0x73, 0x68, 0x61, 0x6c, 0x6c,
  0x20, 0x6d, 0x65, 0x61, 0x6e, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x74, 0x65, 0x72, 0x6d, 0x73, 0x20,
  0x61, 0x6e, 0x64, 0x20, 0x63, 0x6f, 0x6e, 0x64,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x66,
  0x6f, 0x72, 0x20, 0x75, 0x73, 0x65, 0x2c, 0x20,
  0x72, 0x65, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63,
  0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x69, 0x6f, 0x6e, 0x20, 0x61, 0x73, 0x20,
  0x64, 0x65, 0x66, 0x69, 0x6e, 0x65, 0x64, 0x20,
  0x62, 0x79, 0x20, 0x53, 0x65, 0x63, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x31, 0x20, 0x74, 0x68,
  0x72, 0x6f, 0x75, 0x67, 0x68, 0x20, 0x39, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20,
  0x64, 0x6f, 0x63, 0x75, 0x6d, 0x65, 0x6e, 0x74,
  0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x22, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x6f, 0x72, 0x22, 0x20, 0x73, 0x68, 0x61, 0x6c,
  0x6c, 0x20, 0x6d, 0x65, 0x61, 0x6e, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x63, 0x6f, 0x70, 0x79, 0x72,
  0x69, 0x67, 0x68, 0x74, 0x20, 0x6f, 0x77, 0x6e,
  0x65, 0x72, 0x20, 0x6f, 0x72, 0x20, 0x65, 0x6e,
  0x74, 0x69, 0x74, 0x79, 0x20, 0x61, 0x75, 0x74,
  0x68, 0x6f, 0x72, 0x69, 0x7a, 0x65, 0x64, 0x20,
  0x62, 0x79, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x63, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x6f,
  0x77, 0x6e, 0x65, 0x72, 0x20, 0x74, 0x68, 0x61,
  0x74, 0x20, 0x69, 0x73, 0x20, 0x67, 0x72, 0x61,
  0x6e, 0x74, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x22, 0x4c, 0x65, 0x67, 0x61, 0x6c,
  0x20, 0x45, 0x6e, 0x74, 0x69, 0x74, 0x79, 0x22,
  0x20, 0x73, 0x68, 0x61, 0x6c, 0x6c, 0x20, 0x6d,
  0x65, 0x61, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x75, 0x6e, 0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x61, 0x63, 0x74,
  0x69, 0x6e, 0x67, 0x20, 0x65, 0x6e, 0x74, 0x69,
  0x74, 0x79, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x61,
  0x6c, 0x6c, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x6f, 0x74, 0x68, 0x65, 0x72, 0x20, 0x65,
  0x6e, 0x74, 0x69, 0x74, 0x69, 0x65, 0x73, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x63, 0x6f, 0x6e,
  0x74, 0x72, 0x6f, 0x6c, 0x2c, 0x20, 0x61, 0x72,
  0x65, 0x20, 0x63, 0x6f, 0x6e, 0x74, 0x72, 0x6f,
  0x6c, 0x6c, 0x65, 0x64, 0x20, 0x62, 0x79, 0x2c,
  0x20, 0x6f, 0x72, 0x20, 0x61, 0x72, 0x65, 0x20,
  0x75, 0x6e, 0x64, 0x65, 0x72, 0x20, 0x63, 0x6f,
  0x6d, 0x6d, 0x6f, 0x6e, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x63, 0x6f, 0x6e, 0x74, 0x72,
  0x6f, 0x6c, 0x20, 0x77, 0x69, 0x74, 0x68, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x65, 0x6e, 0x74,
  0x69, 0x74, 0x79, 0x2e, 0x20, 0x46, 0x6f, 0x72,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x70, 0x75, 0x72,
  0x70, 0x6f, 0x73, 0x65, 0x73, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x64, 0x65,
  0x66, 0x69, 0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e,
  0x2c, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x22, 0x63, 0x6f, 0x6e, 0x74, 0x72, 0x6f, 0x6c,
  0x22, 0x20, 0x6d, 0x65, 0x61, 0x6e, 0x73, 0x20,
  0x28, 0x69, 0x29, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x70, 0x6f, 0x77, 0x65, 0x72, 0x2c, 0x20, 0x64,
  0x69, 0x72, 0x65, 0x63, 0x74, 0x20, 0x6f, 0x72,
  0x20, 0x69, 0x6e, 0x64, 0x69, 0x72, 0x65, 0x63,
  0x74, 0x2c, 0x20, 0x74, 0x6f, 0x20, 0x63, 0x61,
  0x75, 0x73, 0x65, 0x20, 0x74, 0x68, 0x65, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x64, 0x69,
  0x72, 0x65, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x6f, 0x72, 0x20, 0x6d, 0x61, 0x6e, 0x61, 0x67,
  0x65, 0x6d, 0x65, 0x6e, 0x74, 0x20, 0x6f, 0x66,
  0x20, 0x73, 0x75, 0x63, 0x68, 0x20, 0x65, 0x6e,
  0x74, 0x69, 0x74, 0x79, 0x2c, 0x20, 0x77, 0x68,
  0x65, 0x74, 0x68, 0x65, 0x72, 0x20, 0x62, 0x79,
  0x20, 0x63, 0x6f, 0x6e, 0x74, 0x72, 0x61, 0x63,
  0x74, 0x20, 0x6f, 0x72, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6f, 0x74, 0x68, 0x65, 0x72,
  0x77, 0x69, 0x73, 0x65, 0x2c, 0x20, 0x6f, 0x72,
  0x20, 0x28, 0x69, 0x69, 0x29, 0x20, 0x6f, 0x77,
  0x6e, 0x65, 0x72, 0x73, 0x68, 0x69, 0x70, 0x20,
  0x6f, 0x66, 0x20, 0x66, 0x69, 0x66, 0x74, 0x79,
  0x20, 0x70, 0x65, 0x72, 0x63, 0x65, 0x6e, 0x74,
  0x20, 0x28, 0x35, 0x30, 0x25, 0x29, 0x20, 0x6f,
  0x72, 0x20, 0x6d, 0x6f, 0x72, 0x65, 0x20, 0x6f,
  0x66, 0x20, 0x74, 0x68, 0x65, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x6f, 0x75, 0x74, 0x73,
  0x74, 0x61, 0x6e, 0x64, 0x69, 0x6e, 0x67, 0x20,
  0x73, 0x68, 0x61, 0x72, 0x65, 0x73, 0x2c, 0x20,
  0x6f, 0x72, 0x20, 0x28, 0x69, 0x69, 0x69, 0x29,
  0x20, 0x62, 0x65, 0x6e, 0x65, 0x66, 0x69, 0x63,
  0x69, 0x61, 0x6c, 0x20, 0x6f, 0x77, 0x6e, 0x65,
  0x72, 0x73, 0x68, 0x69, 0x70, 0x20, 0x6f, 0x66,
  0x20, 0x73, 0x75, 0x63, 0x68, 0x20, 0x65, 0x6e,
  0x74, 0x69, 0x74, 0x79, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x22, 0x59, 0x6f,
  0x75, 0x22, 0x20, 0x28, 0x6f, 0x72, 0x20, 0x22,
  0x59, 0x6f, 0x75, 0x72, 0x22, 0x29, 0x20, 0x73,
  0x68, 0x61, 0x6c, 0x6c, 0x20, 0x6d, 0x65, 0x61,
  0x6e, 0x20, 0x61, 0x6e, 0x20, 0x69, 0x6e, 0x64,
  0x69, 0x76, 0x69, 0x64, 0x75, 0x61, 0x6c, 0x20,
  0x6f, 0x72, 0x20, 0x4c, 0x65, 0x67, 0x61, 0x6c,
  0x20, 0x45, 0x6e, 0x74, 0x69, 0x74, 0x79, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x65, 0x78,
  0x65, 0x72, 0x63, 0x69, 0x73, 0x69, 0x6e, 0x67,
  0x20, 0x70, 0x65, 0x72, 0x6d, 0x69, 0x73, 0x73,
  0x69, 0x6f, 0x6e, 0x73, 0x20, 0x67, 0x72, 0x61,
  0x6e, 0x74, 0x65, 0x64, 0x20, 0x62, 0x79, 0x20,
  0x74, 0x68, 0x69, 0x73, 0x20, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x65, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x22, 0x53, 0x6f,
  0x75, 0x72, 0x63, 0x65, 0x22, 0x20, 0x66, 0x6f,
  0x72, 0x6d, 0x20, 0x73, 0x68, 0x61, 0x6c, 0x6c,
  0x20, 0x6d, 0x65, 0x61, 0x6e, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x70, 0x72, 0x65, 0x66, 0x65, 0x72,
  0x72, 0x65, 0x64, 0x20, 0x66, 0x6f, 0x72, 0x6d,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x6d, 0x61, 0x6b,
  0x69, 0x6e, 0x67, 0x20, 0x6d, 0x6f, 0x64, 0x69,
  0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x73, 0x2c, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x69,
  0x6e, 0x67, 0x20, 0x62, 0x75, 0x74, 0x20, 0x6e,
  0x6f, 0x74, 0x20, 0x6c, 0x69, 0x6d, 0x69, 0x74,
  0x65, 0x64, 0x20, 0x74, 0x6f, 0x20, 0x73, 0x6f,
  0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x20, 0x73,
  0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x63, 0x6f,
  0x64, 0x65, 0x2c, 0x20, 0x64, 0x6f, 0x63, 0x75,
  0x6d, 0x65, 0x6e, 0x74, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x73, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x2c, 0x20,
  0x61, 0x6e, 0x64, 0x20, 0x63, 0x6f, 0x6e, 0x66,
  0x69, 0x67, 0x75, 0x72, 0x61, 0x74, 0x69, 0x6f,
  0x6e, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x73, 0x2e,
  0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x22, 0x4f, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x22,
  0x20, 0x66, 0x6f, 0x72, 0x6d, 0x20, 0x73, 0x68,
  0x61, 0x6c, 0x6c, 0x20, 0x6d, 0x65, 0x61, 0x6e,
  0x20, 0x61, 0x6e, 0x79, 0x20, 0x66, 0x6f, 0x72,
  0x6d, 0x20, 0x72, 0x65, 0x73, 0x75, 0x6c, 0x74,
  0x69, 0x6e, 0x67, 0x20, 0x66, 0x72, 0x6f, 0x6d,
  0x20, 0x6d, 0x65, 0x63, 0x68, 0x61, 0x6e, 0x69,
  0x63, 0x61, 0x6c, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x74, 0x72, 0x61, 0x6e, 0x73, 0x66,
  0x6f, 0x72, 0x6d, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x6f, 0x72, 0x20, 0x74, 0x72, 0x61, 0x6e,
  0x73, 0x6c, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x6f, 0x66, 0x20, 0x61, 0x20, 0x53, 0x6f, 0x75,
  0x72, 0x63, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x6d,
  0x2c, 0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64,
  0x69, 0x6e, 0x67, 0x20, 0x62, 0x75, 0x74, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6e, 0x6f,
  0x74, 0x20, 0x6c, 0x69, 0x6d, 0x69, 0x74, 0x65,
  0x64, 0x20, 0x74, 0x6f, 0x20, 0x63, 0x6f, 0x6d,
  0x70, 0x69, 0x6c, 0x65, 0x64, 0x20, 0x6f, 0x62,
  0x6a, 0x65, 0x63, 0x74, 0x20, 0x63, 0x6f, 0x64,
  0x65, 0x2c, 0x20, 0x67, 0x65, 0x6e, 0x65, 0x72,
  0x61, 0x74, 0x65, 0x64, 0x20, 0x64, 0x6f, 0x63,
  0x75, 0x6d, 0x65, 0x6e, 0x74, 0x61, 0x74, 0x69,
  0x6f, 0x6e, 0x2c, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x63, 0x6f,
  0x6e, 0x76, 0x65, 0x72, 0x73, 0x69, 0x6f, 0x6e,
  0x73, 0x20, 0x74, 0x6f, 0x20, 0x6f, 0x74, 0x68,
  0x65, 0x72, 0x20, 0x6d, 0x65, 0x64, 0x69, 0x61,
  0x20, 0x74, 0x79, 0x70, 0x65, 0x73, 0x2e, 0x0a,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x22,
  0x57, 0x6f, 0x72, 0x6b, 0x22, 0x20, 0x73, 0x68,
  0x61, 0x6c, 0x6c, 0x20, 0x6d, 0x65, 0x61, 0x6e,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x77, 0x6f, 0x72,
  0x6b, 0x20, 0x6f, 0x66, 0x20, 0x61, 0x75, 0x74,
  0x68, 0x6f, 0x72, 0x73, 0x68, 0x69, 0x70, 0x2c,
  0x20, 0x77, 0x68, 0x65, 0x74, 0x68, 0x65, 0x72,
  0x20, 0x69, 0x6e, 0x20, 0x53, 0x6f, 0x75, 0x72,
  0x63, 0x65, 0x20, 0x6f, 0x72, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x4f, 0x62, 0x6a, 0x65,
  0x63, 0x74, 0x20, 0x66, 0x6f, 0x72, 0x6d, 0x2c,
  0x20, 0x6d, 0x61, 0x64, 0x65, 0x20, 0x61, 0x76,
  0x61, 0x69, 0x6c, 0x61, 0x62, 0x6c, 0x65, 0x20,
  0x75, 0x6e, 0x64, 0x65, 0x72, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x2c, 0x20, 0x61, 0x73, 0x20, 0x69, 0x6e,
  0x64, 0x69, 0x63, 0x61, 0x74, 0x65, 0x64, 0x20,
  0x62, 0x79, 0x20, 0x61, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x63, 0x6f, 0x70, 0x79, 0x72,
  0x69, 0x67, 0x68, 0x74, 0x20, 0x6e, 0x6f, 0x74,
  0x69, 0x63, 0x65, 0x20, 0x74, 0x68, 0x61, 0x74,
  0x20, 0x69, 0x73, 0x20, 0x69, 0x6e, 0x63, 0x6c,
  0x75, 0x64, 0x65, 0x64, 0x20, 0x69, 0x6e, 0x20,
  0x6f, 0x72, 0x20, 0x61, 0x74, 0x74, 0x61, 0x63,
  0x68, 0x65, 0x64, 0x20, 0x74, 0x6f, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x77, 0x6f, 0x72, 0x6b, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x28, 0x61,
  0x6e, 0x20, 0x65, 0x78, 0x61, 0x6d, 0x70, 0x6c,
  0x65, 0x20, 0x69, 0x73, 0x20, 0x70, 0x72, 0x6f,
  0x76, 0x69, 0x64, 0x65, 0x64, 0x20, 0x69, 0x6e,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x41, 0x70, 0x70,
  0x65, 0x6e, 0x64, 0x69, 0x78, 0x20, 0x62, 0x65,
  0x6c, 0x6f, 0x77, 0x29, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x22, 0x44, 0x65,
  0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x22, 0x20,
  0x73, 0x68, 0x61, 0x6c, 0x6c, 0x20, 0x6d, 0x65,
  0x61, 0x6e, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x77,
  0x6f, 0x72, 0x6b, 0x2c, 0x20, 0x77, 0x68, 0x65,
  0x74, 0x68, 0x65, 0x72, 0x20, 0x69, 0x6e, 0x20,
  0x53, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x6f,
  0x72, 0x20, 0x4f, 0x62, 0x6a, 0x65, 0x63, 0x74,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x66,
  0x6f, 0x72, 0x6d, 0x2c, 0x20, 0x74, 0x68, 0x61,
  0x74, 0x20, 0x69, 0x73, 0x20, 0x62, 0x61, 0x73,
  0x65, 0x64, 0x20, 0x6f, 0x6e, 0x20, 0x28, 0x6f,
  0x72, 0x20, 0x64, 0x65, 0x72, 0x69, 0x76, 0x65,
  0x64, 0x20, 0x66, 0x72, 0x6f, 0x6d, 0x29, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x66, 0x6f, 0x72,
  0x20, 0x77, 0x68, 0x69, 0x63, 0x68, 0x20, 0x74,
  0x68, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x65, 0x64, 0x69, 0x74, 0x6f, 0x72, 0x69,
  0x61, 0x6c, 0x20, 0x72, 0x65, 0x76, 0x69, 0x73,
  0x69, 0x6f, 0x6e, 0x73, 0x2c, 0x20, 0x61, 0x6e,
  0x6e, 0x6f, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x73, 0x2c, 0x20, 0x65, 0x6c, 0x61, 0x62, 0x6f,
  0x72, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x2c,
  0x20, 0x6f, 0x72, 0x20, 0x6f, 0x74, 0x68, 0x65,
  0x72, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69,
  0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x72, 0x65,
  0x70, 0x72, 0x65, 0x73, 0x65, 0x6e, 0x74, 0x2c,
  0x20, 0x61, 0x73, 0x20, 0x61, 0x20, 0x77, 0x68,
  0x6f, 0x6c, 0x65, 0x2c, 0x20, 0x61, 0x6e, 0x20,
  0x6f, 0x72, 0x69, 0x67, 0x69, 0x6e, 0x61, 0x6c,
  0x20, 0x77, 0x6f, 0x72, 0x6b, 0x20, 0x6f, 0x66,
  0x20, 0x61, 0x75, 0x74, 0x68, 0x6f, 0x72, 0x73,
  0x68, 0x69, 0x70, 0x2e, 0x20, 0x46, 0x6f, 0x72,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x70, 0x75, 0x72,
  0x70, 0x6f, 0x73, 0x65, 0x73, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x6f, 0x66, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x2c, 0x20, 0x44, 0x65, 0x72,
  0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65, 0x20,
  0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x73, 0x68,
  0x61, 0x6c, 0x6c, 0x20, 0x6e, 0x6f, 0x74, 0x20,
  0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x65, 0x20,
  0x77, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x74, 0x68,
  0x61, 0x74, 0x20, 0x72, 0x65, 0x6d, 0x61, 0x69,
  0x6e, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x73, 0x65, 0x70, 0x61, 0x72, 0x61, 0x62, 0x6c,
  0x65, 0x20, 0x66, 0x72, 0x6f, 0x6d, 0x2c, 0x20,
  0x6f, 0x72, 0x20, 0x6d, 0x65, 0x72, 0x65, 0x6c,
  0x79, 0x20, 0x6c, 0x69, 0x6e, 0x6b, 0x20, 0x28,
  0x6f, 0x72, 0x20, 0x62, 0x69, 0x6e, 0x64, 0x20,
  0x62, 0x79, 0x20, 0x6e, 0x61, 0x6d, 0x65, 0x29,
  0x20, 0x74, 0x6f, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x69, 0x6e, 0x74, 0x65, 0x72, 0x66, 0x61, 0x63,
  0x65, 0x73, 0x20, 0x6f, 0x66, 0x2c, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x44, 0x65, 0x72, 0x69, 0x76, 0x61,
  0x74, 0x69, 0x76, 0x65, 0x20, 0x57, 0x6f, 0x72,
  0x6b, 0x73, 0x20, 0x74, 0x68, 0x65, 0x72, 0x65,
  0x6f, 0x66, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x22, 0x43, 0x6f, 0x6e, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e,
  0x22, 0x20, 0x73, 0x68, 0x61, 0x6c, 0x6c, 0x20,
  0x6d, 0x65, 0x61, 0x6e, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x77, 0x6f, 0x72, 0x6b, 0x20, 0x6f, 0x66,
  0x20, 0x61, 0x75, 0x74, 0x68, 0x6f, 0x72, 0x73,
  0x68, 0x69, 0x70, 0x2c, 0x20, 0x69, 0x6e, 0x63,
  0x6c, 0x75, 0x64, 0x69, 0x6e, 0x67, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x6f, 0x72, 0x69, 0x67, 0x69, 0x6e, 0x61,
  0x6c, 0x20, 0x76, 0x65, 0x72, 0x73, 0x69, 0x6f,
  0x6e, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x6d, 0x6f,
  0x64, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x6f, 0x72, 0x20, 0x61,
  0x64, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x74,
  0x6f, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x57,
  0x6f, 0x72, 0x6b, 0x20, 0x6f, 0x72, 0x20, 0x44,
  0x65, 0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76,
  0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20,
  0x74, 0x68, 0x65, 0x72, 0x65, 0x6f, 0x66, 0x2c,
  0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x69, 0x73,
  0x20, 0x69, 0x6e, 0x74, 0x65, 0x6e, 0x74, 0x69,
  0x6f, 0x6e, 0x61, 0x6c, 0x6c, 0x79, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x73, 0x75, 0x62,
  0x6d, 0x69, 0x74, 0x74, 0x65, 0x64, 0x20, 0x74,
  0x6f, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x6f, 0x72, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x69,
  0x6e, 0x63, 0x6c, 0x75, 0x73, 0x69, 0x6f, 0x6e,
  0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x57, 0x6f, 0x72, 0x6b, 0x20, 0x62, 0x79, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x63, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x6f, 0x77,
  0x6e, 0x65, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x6f, 0x72, 0x20, 0x62, 0x79, 0x20,
  0x61, 0x6e, 0x20, 0x69, 0x6e, 0x64, 0x69, 0x76,
  0x69, 0x64, 0x75, 0x61, 0x6c, 0x20, 0x6f, 0x72,
  0x20, 0x4c, 0x65, 0x67, 0x61, 0x6c, 0x20, 0x45,
  0x6e, 0x74, 0x69, 0x74, 0x79, 0x20, 0x61, 0x75,
  0x74, 0x68, 0x6f, 0x72, 0x69, 0x7a, 0x65, 0x64,
  0x20, 0x74, 0x6f, 0x20, 0x73, 0x75, 0x62, 0x6d,
  0x69, 0x74, 0x20, 0x6f, 0x6e, 0x20, 0x62, 0x65,
  0x68, 0x61, 0x6c, 0x66, 0x20, 0x6f, 0x66, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x63, 0x6f, 0x70, 0x79, 0x72, 0x69,
  0x67, 0x68, 0x74, 0x20, 0x6f, 0x77, 0x6e, 0x65,
  0x72, 0x2e, 0x20, 0x46, 0x6f, 0x72, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x70, 0x75, 0x72, 0x70, 0x6f,
  0x73, 0x65, 0x73, 0x20, 0x6f, 0x66, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x64, 0x65, 0x66, 0x69,
  0x6e, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20,
  0x22, 0x73, 0x75, 0x62, 0x6d, 0x69, 0x74, 0x74,
  0x65, 0x64, 0x22, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x6d, 0x65, 0x61, 0x6e, 0x73, 0x20,
  0x61, 0x6e, 0x79, 0x20, 0x66, 0x6f, 0x72, 0x6d,
  0x20, 0x6f, 0x66, 0x20, 0x65, 0x6c, 0x65, 0x63,
  0x74, 0x72, 0x6f, 0x6e, 0x69, 0x63, 0x2c, 0x20,
  0x76, 0x65, 0x72, 0x62, 0x61, 0x6c, 0x2c, 0x20,
  0x6f, 0x72, 0x20, 0x77, 0x72, 0x69, 0x74, 0x74,
  0x65, 0x6e, 0x20, 0x63, 0x6f, 0x6d, 0x6d, 0x75,
  0x6e, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x73, 0x65, 0x6e, 0x74, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x74, 0x6f, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x6f, 0x72, 0x20, 0x6f, 0x72, 0x20, 0x69,
  0x74, 0x73, 0x20, 0x72, 0x65, 0x70, 0x72, 0x65,
  0x73, 0x65, 0x6e, 0x74, 0x61, 0x74, 0x69, 0x76,
  0x65, 0x73, 0x2c, 0x20, 0x69, 0x6e, 0x63, 0x6c,
  0x75, 0x64, 0x69, 0x6e, 0x67, 0x20, 0x62, 0x75,
  0x74, 0x20, 0x6e, 0x6f, 0x74, 0x20, 0x6c, 0x69,
  0x6d, 0x69, 0x74, 0x65, 0x64, 0x20, 0x74, 0x6f,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x63,
  0x6f, 0x6d, 0x6d, 0x75, 0x6e, 0x69, 0x63, 0x61,
  0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x6e, 0x20,
  0x65, 0x6c, 0x65, 0x63, 0x74, 0x72, 0x6f, 0x6e,
  0x69, 0x63, 0x20, 0x6d, 0x61, 0x69, 0x6c, 0x69,
  0x6e, 0x67, 0x20, 0x6c, 0x69, 0x73, 0x74, 0x73,
  0x2c, 0x20, 0x73, 0x6f, 0x75, 0x72, 0x63, 0x65,
  0x20, 0x63, 0x6f, 0x64, 0x65, 0x20, 0x63, 0x6f,
  0x6e, 0x74, 0x72, 0x6f, 0x6c, 0x20, 0x73, 0x79,
  0x73, 0x74, 0x65, 0x6d, 0x73, 0x2c, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x69, 0x73, 0x73, 0x75, 0x65, 0x20, 0x74,
  0x72, 0x61, 0x63, 0x6b, 0x69, 0x6e, 0x67, 0x20,
  0x73, 0x79, 0x73, 0x74, 0x65, 0x6d, 0x73, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x61, 0x72, 0x65,
  0x20, 0x6d, 0x61, 0x6e, 0x61, 0x67, 0x65, 0x64,
  0x20, 0x62, 0x79, 0x2c, 0x20, 0x6f, 0x72, 0x20,
  0x6f, 0x6e, 0x20, 0x62, 0x65, 0x68, 0x61, 0x6c,
  0x66, 0x20, 0x6f, 0x66, 0x2c, 0x20, 0x74, 0x68,
  0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x6f, 0x72,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x70, 0x75, 0x72, 0x70, 0x6f, 0x73, 0x65,
  0x20, 0x6f, 0x66, 0x20, 0x64, 0x69, 0x73, 0x63,
  0x75, 0x73, 0x73, 0x69, 0x6e, 0x67, 0x20, 0x61,
  0x6e, 0x64, 0x20, 0x69, 0x6d, 0x70, 0x72, 0x6f,
  0x76, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x2c, 0x20, 0x62,
  0x75, 0x74, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x65, 0x78, 0x63, 0x6c, 0x75, 0x64, 0x69,
  0x6e, 0x67, 0x20, 0x63, 0x6f, 0x6d, 0x6d, 0x75,
  0x6e, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x69, 0x73,
  0x20, 0x63, 0x6f, 0x6e, 0x73, 0x70, 0x69, 0x63,
  0x75, 0x6f, 0x75, 0x73, 0x6c, 0x79, 0x20, 0x6d,
  0x61, 0x72, 0x6b, 0x65, 0x64, 0x20, 0x6f, 0x72,
  0x20, 0x6f, 0x74, 0x68, 0x65, 0x72, 0x77, 0x69,
  0x73, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x64, 0x65, 0x73, 0x69, 0x67, 0x6e, 0x61,
  0x74, 0x65, 0x64, 0x20, 0x69, 0x6e, 0x20, 0x77,
  0x72, 0x69, 0x74, 0x69, 0x6e, 0x67, 0x20, 0x62,
  0x79, 0x20, 0x74, 0x68, 0x65, 0x20, 0x63, 0x6f,
  0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20,
  0x6f, 0x77, 0x6e, 0x65, 0x72, 0x20, 0x61, 0x73,
  0x20, 0x22, 0x4e, 0x6f, 0x74, 0x20, 0x61, 0x20,
  0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x22, 0x0a, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x22, 0x43,
  0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x6f, 0x72, 0x22, 0x20, 0x73, 0x68, 0x61, 0x6c,
  0x6c, 0x20, 0x6d, 0x65, 0x61, 0x6e, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x6f, 0x72, 0x20,
  0x61, 0x6e, 0x64, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x69, 0x6e, 0x64, 0x69, 0x76, 0x69, 0x64, 0x75,
  0x61, 0x6c, 0x20, 0x6f, 0x72, 0x20, 0x4c, 0x65,
  0x67, 0x61, 0x6c, 0x20, 0x45, 0x6e, 0x74, 0x69,
  0x74, 0x79, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x6f, 0x6e, 0x20, 0x62, 0x65, 0x68, 0x61,
  0x6c, 0x66, 0x20, 0x6f, 0x66, 0x20, 0x77, 0x68,
  0x6f, 0x6d, 0x20, 0x61, 0x20, 0x43, 0x6f, 0x6e,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f,
  0x6e, 0x20, 0x68, 0x61, 0x73, 0x20, 0x62, 0x65,
  0x65, 0x6e, 0x20, 0x72, 0x65, 0x63, 0x65, 0x69,
  0x76, 0x65, 0x64, 0x20, 0x62, 0x79, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x6f, 0x72, 0x20,
  0x61, 0x6e, 0x64, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x73, 0x75, 0x62, 0x73, 0x65, 0x71,
  0x75, 0x65, 0x6e, 0x74, 0x6c, 0x79, 0x20, 0x69,
  0x6e, 0x63, 0x6f, 0x72, 0x70, 0x6f, 0x72, 0x61,
  0x74, 0x65, 0x64, 0x20, 0x77, 0x69, 0x74, 0x68,
  0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20, 0x57,
  0x6f, 0x72, 0x6b, 0x2e, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x32, 0x2e, 0x20, 0x47, 0x72, 0x61, 0x6e,
  0x74, 0x20, 0x6f, 0x66, 0x20, 0x43, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x2e, 0x20,
  0x53, 0x75, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x20,
  0x74, 0x6f, 0x20, 0x74, 0x68, 0x65, 0x20, 0x74,
  0x65, 0x72, 0x6d, 0x73, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x6f, 0x66, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68, 0x69,
  0x73, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x2c, 0x20, 0x65, 0x61, 0x63, 0x68, 0x20,
  0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x6f, 0x72, 0x20, 0x68, 0x65, 0x72, 0x65,
  0x62, 0x79, 0x20, 0x67, 0x72, 0x61, 0x6e, 0x74,
  0x73, 0x20, 0x74, 0x6f, 0x20, 0x59, 0x6f, 0x75,
  0x20, 0x61, 0x20, 0x70, 0x65, 0x72, 0x70, 0x65,
  0x74, 0x75, 0x61, 0x6c, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x77, 0x6f, 0x72, 0x6c,
  0x64, 0x77, 0x69, 0x64, 0x65, 0x2c, 0x20, 0x6e,
  0x6f, 0x6e, 0x2d, 0x65, 0x78, 0x63, 0x6c, 0x75,
  0x73, 0x69, 0x76, 0x65, 0x2c, 0x20, 0x6e, 0x6f,
  0x2d, 0x63, 0x68, 0x61, 0x72, 0x67, 0x65, 0x2c,
  0x20, 0x72, 0x6f, 0x79, 0x61, 0x6c, 0x74, 0x79,
  0x2d, 0x66, 0x72, 0x65, 0x65, 0x2c, 0x20, 0x69,
  0x72, 0x72, 0x65, 0x76, 0x6f, 0x63, 0x61, 0x62,
  0x6c, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67,
  0x68, 0x74, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x20, 0x74, 0x6f, 0x20, 0x72, 0x65,
  0x70, 0x72, 0x6f, 0x64, 0x75, 0x63, 0x65, 0x2c,
  0x20, 0x70, 0x72, 0x65, 0x70, 0x61, 0x72, 0x65,
  0x20, 0x44, 0x65, 0x72, 0x69, 0x76, 0x61, 0x74,
  0x69, 0x76, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x73, 0x20, 0x6f, 0x66, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x70, 0x75, 0x62, 0x6c,
  0x69, 0x63, 0x6c, 0x79, 0x20, 0x64, 0x69, 0x73,
  0x70, 0x6c, 0x61, 0x79, 0x2c, 0x20, 0x70, 0x75,
  0x62, 0x6c, 0x69, 0x63, 0x6c, 0x79, 0x20, 0x70,
  0x65, 0x72, 0x66, 0x6f, 0x72, 0x6d, 0x2c, 0x20,
  0x73, 0x75, 0x62, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x2c, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x65, 0x20, 0x74, 0x68, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x57, 0x6f, 0x72,
  0x6b, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x73, 0x75,
  0x63, 0x68, 0x20, 0x44, 0x65, 0x72, 0x69, 0x76,
  0x61, 0x74, 0x69, 0x76, 0x65, 0x20, 0x57, 0x6f,
  0x72, 0x6b, 0x73, 0x20, 0x69, 0x6e, 0x20, 0x53,
  0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x6f, 0x72,
  0x20, 0x4f, 0x62, 0x6a, 0x65, 0x63, 0x74, 0x20,
  0x66, 0x6f, 0x72, 0x6d, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x33, 0x2e, 0x20, 0x47, 0x72, 0x61,
  0x6e, 0x74, 0x20, 0x6f, 0x66, 0x20, 0x50, 0x61,
  0x74, 0x65, 0x6e, 0x74, 0x20, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x65, 0x2e, 0x20, 0x53, 0x75,
  0x62, 0x6a, 0x65, 0x63, 0x74, 0x20, 0x74, 0x6f,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x74, 0x65, 0x72,
  0x6d, 0x73, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x63,
  0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e,
  0x73, 0x20, 0x6f, 0x66, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20,
  0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x2c,
  0x20, 0x65, 0x61, 0x63, 0x68, 0x20, 0x43, 0x6f,
  0x6e, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x6f,
  0x72, 0x20, 0x68, 0x65, 0x72, 0x65, 0x62, 0x79,
  0x20, 0x67, 0x72, 0x61, 0x6e, 0x74, 0x73, 0x20,
  0x74, 0x6f, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x61,
  0x20, 0x70, 0x65, 0x72, 0x70, 0x65, 0x74, 0x75,
  0x61, 0x6c, 0x2c, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x77, 0x6f, 0x72, 0x6c, 0x64, 0x77,
  0x69, 0x64, 0x65, 0x2c, 0x20, 0x6e, 0x6f, 0x6e,
  0x2d, 0x65, 0x78, 0x63, 0x6c, 0x75, 0x73, 0x69,
  0x76, 0x65, 0x2c, 0x20, 0x6e, 0x6f, 0x2d, 0x63,
  0x68, 0x61, 0x72, 0x67, 0x65, 0x2c, 0x20, 0x72,
  0x6f, 0x79, 0x61, 0x6c, 0x74, 0x79, 0x2d, 0x66,
  0x72, 0x65, 0x65, 0x2c, 0x20, 0x69, 0x72, 0x72,
  0x65, 0x76, 0x6f, 0x63, 0x61, 0x62, 0x6c, 0x65,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x28,
  0x65, 0x78, 0x63, 0x65, 0x70, 0x74, 0x20, 0x61,
  0x73, 0x20, 0x73, 0x74, 0x61, 0x74, 0x65, 0x64,
  0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x69, 0x73,
  0x20, 0x73, 0x65, 0x63, 0x74, 0x69, 0x6f, 0x6e,
  0x29, 0x20, 0x70, 0x61, 0x74, 0x65, 0x6e, 0x74,
  0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65,
  0x20, 0x74, 0x6f, 0x20, 0x6d, 0x61, 0x6b, 0x65,
  0x2c, 0x20, 0x68, 0x61, 0x76, 0x65, 0x20, 0x6d,
  0x61, 0x64, 0x65, 0x2c, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x75, 0x73, 0x65, 0x2c, 0x20,
  0x6f, 0x66, 0x66, 0x65, 0x72, 0x20, 0x74, 0x6f,
  0x20, 0x73, 0x65, 0x6c, 0x6c, 0x2c, 0x20, 0x73,
  0x65, 0x6c, 0x6c, 0x2c, 0x20, 0x69, 0x6d, 0x70,
  0x6f, 0x72, 0x74, 0x2c, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x6f, 0x74, 0x68, 0x65, 0x72, 0x77, 0x69,
  0x73, 0x65, 0x20, 0x74, 0x72, 0x61, 0x6e, 0x73,
  0x66, 0x65, 0x72, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x57, 0x6f, 0x72, 0x6b, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x77, 0x68, 0x65, 0x72,
  0x65, 0x20, 0x73, 0x75, 0x63, 0x68, 0x20, 0x6c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x61,
  0x70, 0x70, 0x6c, 0x69, 0x65, 0x73, 0x20, 0x6f,
  0x6e, 0x6c, 0x79, 0x20, 0x74, 0x6f, 0x20, 0x74,
  0x68, 0x6f, 0x73, 0x65, 0x20, 0x70, 0x61, 0x74,
  0x65, 0x6e, 0x74, 0x20, 0x63, 0x6c, 0x61, 0x69,
  0x6d, 0x73, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x61, 0x62, 0x6c, 0x65, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x62, 0x79, 0x20, 0x73,
  0x75, 0x63, 0x68, 0x20, 0x43, 0x6f, 0x6e, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x6f, 0x72, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x61, 0x72, 0x65,
  0x20, 0x6e, 0x65, 0x63, 0x65, 0x73, 0x73, 0x61,
  0x72, 0x69, 0x6c, 0x79, 0x20, 0x69, 0x6e, 0x66,
  0x72, 0x69, 0x6e, 0x67, 0x65, 0x64, 0x20, 0x62,
  0x79, 0x20, 0x74, 0x68, 0x65, 0x69, 0x72, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x43, 0x6f,
  0x6e, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69,
  0x6f, 0x6e, 0x28, 0x73, 0x29, 0x20, 0x61, 0x6c,
  0x6f, 0x6e, 0x65, 0x20, 0x6f, 0x72, 0x20, 0x62,
  0x79, 0x20, 0x63, 0x6f, 0x6d, 0x62, 0x69, 0x6e,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x65, 0x69, 0x72, 0x20, 0x43,
  0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x69, 0x6f, 0x6e, 0x28, 0x73, 0x29, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x77, 0x69, 0x74,
  0x68, 0x20, 0x74, 0x68, 0x65, 0x20, 0x57, 0x6f,
  0x72, 0x6b, 0x20, 0x74, 0x6f, 0x20, 0x77, 0x68,
  0x69, 0x63, 0x68, 0x20, 0x73, 0x75, 0x63, 0x68,
  0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x69, 0x6f, 0x6e, 0x28, 0x73, 0x29,
  0x20, 0x77, 0x61, 0x73, 0x20, 0x73, 0x75, 0x62,
  0x6d, 0x69, 0x74, 0x74, 0x65, 0x64, 0x2e, 0x20,
  0x49, 0x66, 0x20, 0x59, 0x6f, 0x75, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x69, 0x6e, 0x73,
  0x74, 0x69, 0x74, 0x75, 0x74, 0x65, 0x20, 0x70,
  0x61, 0x74, 0x65, 0x6e, 0x74, 0x20, 0x6c, 0x69,
  0x74, 0x69, 0x67, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x61, 0x67, 0x61, 0x69, 0x6e, 0x73, 0x74,
  0x20, 0x61, 0x6e, 0x79, 0x20, 0x65, 0x6e, 0x74,
  0x69, 0x74, 0x79, 0x20, 0x28, 0x69, 0x6e, 0x63,
  0x6c, 0x75, 0x64, 0x69, 0x6e, 0x67, 0x20, 0x61,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x63,
  0x72, 0x6f, 0x73, 0x73, 0x2d, 0x63, 0x6c, 0x61,
  0x69, 0x6d, 0x20, 0x6f, 0x72, 0x20, 0x63, 0x6f,
  0x75, 0x6e, 0x74, 0x65, 0x72, 0x63, 0x6c, 0x61,
  0x69, 0x6d, 0x20, 0x69, 0x6e, 0x20, 0x61, 0x20,
  0x6c, 0x61, 0x77, 0x73, 0x75, 0x69, 0x74, 0x29,
  0x20, 0x61, 0x6c, 0x6c, 0x65, 0x67, 0x69, 0x6e,
  0x67, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f, 0x72,
  0x20, 0x61, 0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x20,
  0x69, 0x6e, 0x63, 0x6f, 0x72, 0x70, 0x6f, 0x72,
  0x61, 0x74, 0x65, 0x64, 0x20, 0x77, 0x69, 0x74,
  0x68, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x57, 0x6f, 0x72, 0x6b, 0x20, 0x63, 0x6f, 0x6e,
  0x73, 0x74, 0x69, 0x74, 0x75, 0x74, 0x65, 0x73,
  0x20, 0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f, 0x72,
  0x20, 0x63, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x6f, 0x72, 0x79, 0x20, 0x70, 0x61,
  0x74, 0x65, 0x6e, 0x74, 0x20, 0x69, 0x6e, 0x66,
  0x72, 0x69, 0x6e, 0x67, 0x65, 0x6d, 0x65, 0x6e,
  0x74, 0x2c, 0x20, 0x74, 0x68, 0x65, 0x6e, 0x20,
  0x61, 0x6e, 0x79, 0x20, 0x70, 0x61, 0x74, 0x65,
  0x6e, 0x74, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x73, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x67, 0x72, 0x61, 0x6e, 0x74, 0x65,
  0x64, 0x20, 0x74, 0x6f, 0x20, 0x59, 0x6f, 0x75,
  0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x57, 0x6f, 0x72,
  0x6b, 0x20, 0x73, 0x68, 0x61, 0x6c, 0x6c, 0x20,
  0x74, 0x65, 0x72, 0x6d, 0x69, 0x6e, 0x61, 0x74,
  0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x61, 0x73, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x64, 0x61, 0x74, 0x65, 0x20, 0x73,
  0x75, 0x63, 0x68, 0x20, 0x6c, 0x69, 0x74, 0x69,
  0x67, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x69,
  0x73, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x64, 0x2e,
  0x0a, 0x0a, 0x20, 0x20, 0x20, 0x34, 0x2e, 0x20,
  0x52, 0x65, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x2e, 0x20,
  0x59, 0x6f, 0x75, 0x20, 0x6d, 0x61, 0x79, 0x20,
  0x72, 0x65, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63,
  0x65, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65,
  0x20, 0x63, 0x6f, 0x70, 0x69, 0x65, 0x73, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x57, 0x6f, 0x72,
  0x6b, 0x20, 0x6f, 0x72, 0x20, 0x44, 0x65, 0x72,
  0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65, 0x20,
  0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x74, 0x68,
  0x65, 0x72, 0x65, 0x6f, 0x66, 0x20, 0x69, 0x6e,
  0x20, 0x61, 0x6e, 0x79, 0x20, 0x6d, 0x65, 0x64,
  0x69, 0x75, 0x6d, 0x2c, 0x20, 0x77, 0x69, 0x74,
  0x68, 0x20, 0x6f, 0x72, 0x20, 0x77, 0x69, 0x74,
  0x68, 0x6f, 0x75, 0x74, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66,
  0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x2c, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x69, 0x6e,
  0x20, 0x53, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20,
  0x6f, 0x72, 0x20, 0x4f, 0x62, 0x6a, 0x65, 0x63,
  0x74, 0x20, 0x66, 0x6f, 0x72, 0x6d, 0x2c, 0x20,
  0x70, 0x72, 0x6f, 0x76, 0x69, 0x64, 0x65, 0x64,
  0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x59, 0x6f,
  0x75, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x6d, 0x65, 0x65, 0x74, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x66, 0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69,
  0x6e, 0x67, 0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69,
  0x74, 0x69, 0x6f, 0x6e, 0x73, 0x3a, 0x0a, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x28, 0x61,
  0x29, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x6d, 0x75,
  0x73, 0x74, 0x20, 0x67, 0x69, 0x76, 0x65, 0x20,
  0x61, 0x6e, 0x79, 0x20, 0x6f, 0x74, 0x68, 0x65,
  0x72, 0x20, 0x72, 0x65, 0x63, 0x69, 0x70, 0x69,
  0x65, 0x6e, 0x74, 0x73, 0x20, 0x6f, 0x66, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x20, 0x6f, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x44, 0x65,
  0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x61,
  0x20, 0x63, 0x6f, 0x70, 0x79, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x4c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x65, 0x3b, 0x20, 0x61,
  0x6e, 0x64, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x28, 0x62, 0x29, 0x20, 0x59, 0x6f,
  0x75, 0x20, 0x6d, 0x75, 0x73, 0x74, 0x20, 0x63,
  0x61, 0x75, 0x73, 0x65, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x65,
  0x64, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x73, 0x20,
  0x74, 0x6f, 0x20, 0x63, 0x61, 0x72, 0x72, 0x79,
  0x20, 0x70, 0x72, 0x6f, 0x6d, 0x69, 0x6e, 0x65,
  0x6e, 0x74, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x73, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x73, 0x74, 0x61,
  0x74, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x61,
  0x74, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x63, 0x68,
  0x61, 0x6e, 0x67, 0x65, 0x64, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x73, 0x3b,
  0x20, 0x61, 0x6e, 0x64, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x28, 0x63, 0x29, 0x20,
  0x59, 0x6f, 0x75, 0x20, 0x6d, 0x75, 0x73, 0x74,
  0x20, 0x72, 0x65, 0x74, 0x61, 0x69, 0x6e, 0x2c,
  0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x53, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x6d, 0x20, 0x6f, 0x66, 0x20, 0x61,
  0x6e, 0x79, 0x20, 0x44, 0x65, 0x72, 0x69, 0x76,
  0x61, 0x74, 0x69, 0x76, 0x65, 0x20, 0x57, 0x6f,
  0x72, 0x6b, 0x73, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68,
  0x61, 0x74, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x64,
  0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x65, 0x2c, 0x20, 0x61, 0x6c, 0x6c, 0x20, 0x63,
  0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74,
  0x2c, 0x20, 0x70, 0x61, 0x74, 0x65, 0x6e, 0x74,
  0x2c, 0x20, 0x74, 0x72, 0x61, 0x64, 0x65, 0x6d,
  0x61, 0x72, 0x6b, 0x2c, 0x20, 0x61, 0x6e, 0x64,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x61, 0x74, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6e,
  0x6f, 0x74, 0x69, 0x63, 0x65, 0x73, 0x20, 0x66,
  0x72, 0x6f, 0x6d, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x53, 0x6f, 0x75, 0x72, 0x63, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x6d, 0x20, 0x6f, 0x66, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x65, 0x78, 0x63, 0x6c, 0x75,
  0x64, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x6f,
  0x73, 0x65, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x73, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20,
  0x64, 0x6f, 0x20, 0x6e, 0x6f, 0x74, 0x20, 0x70,
  0x65, 0x72, 0x74, 0x61, 0x69, 0x6e, 0x20, 0x74,
  0x6f, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x70, 0x61,
  0x72, 0x74, 0x20, 0x6f, 0x66, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x44, 0x65, 0x72, 0x69,
  0x76, 0x61, 0x74, 0x69, 0x76, 0x65, 0x20, 0x57,
  0x6f, 0x72, 0x6b, 0x73, 0x3b, 0x20, 0x61, 0x6e,
  0x64, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x28, 0x64, 0x29, 0x20, 0x49, 0x66, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x65,
  0x73, 0x20, 0x61, 0x20, 0x22, 0x4e, 0x4f, 0x54,
  0x49, 0x43, 0x45, 0x22, 0x20, 0x74, 0x65, 0x78,
  0x74, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x61,
  0x73, 0x20, 0x70, 0x61, 0x72, 0x74, 0x20, 0x6f,
  0x66, 0x20, 0x69, 0x74, 0x73, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x74, 0x68,
  0x65, 0x6e, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x44,
  0x65, 0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76,
  0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20,
  0x74, 0x68, 0x61, 0x74, 0x20, 0x59, 0x6f, 0x75,
  0x20, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x65, 0x20, 0x6d, 0x75, 0x73, 0x74,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75,
  0x64, 0x65, 0x20, 0x61, 0x20, 0x72, 0x65, 0x61,
  0x64, 0x61, 0x62, 0x6c, 0x65, 0x20, 0x63, 0x6f,
  0x70, 0x79, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x61, 0x74, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x6e, 0x6f,
  0x74, 0x69, 0x63, 0x65, 0x73, 0x20, 0x63, 0x6f,
  0x6e, 0x74, 0x61, 0x69, 0x6e, 0x65, 0x64, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x77, 0x69, 0x74, 0x68, 0x69, 0x6e,
  0x20, 0x73, 0x75, 0x63, 0x68, 0x20, 0x4e, 0x4f,
  0x54, 0x49, 0x43, 0x45, 0x20, 0x66, 0x69, 0x6c,
  0x65, 0x2c, 0x20, 0x65, 0x78, 0x63, 0x6c, 0x75,
  0x64, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x6f,
  0x73, 0x65, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x73, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20,
  0x64, 0x6f, 0x20, 0x6e, 0x6f, 0x74, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x70, 0x65, 0x72, 0x74, 0x61, 0x69, 0x6e,
  0x20, 0x74, 0x6f, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x70, 0x61, 0x72, 0x74, 0x20, 0x6f, 0x66, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x44, 0x65, 0x72, 0x69,
  0x76, 0x61, 0x74, 0x69, 0x76, 0x65, 0x20, 0x57,
  0x6f, 0x72, 0x6b, 0x73, 0x2c, 0x20, 0x69, 0x6e,
  0x20, 0x61, 0x74, 0x20, 0x6c, 0x65, 0x61, 0x73,
  0x74, 0x20, 0x6f, 0x6e, 0x65, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x66,
  0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69, 0x6e, 0x67,
  0x20, 0x70, 0x6c, 0x61, 0x63, 0x65, 0x73, 0x3a,
  0x20, 0x77, 0x69, 0x74, 0x68, 0x69, 0x6e, 0x20,
  0x61, 0x20, 0x4e, 0x4f, 0x54, 0x49, 0x43, 0x45,
  0x20, 0x74, 0x65, 0x78, 0x74, 0x20, 0x66, 0x69,
  0x6c, 0x65, 0x20, 0x64, 0x69, 0x73, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x65, 0x64, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x61, 0x73, 0x20, 0x70, 0x61, 0x72, 0x74,
  0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x44, 0x65, 0x72, 0x69, 0x76, 0x61, 0x74, 0x69,
  0x76, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73,
  0x3b, 0x20, 0x77, 0x69, 0x74, 0x68, 0x69, 0x6e,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x53, 0x6f, 0x75,
  0x72, 0x63, 0x65, 0x20, 0x66, 0x6f, 0x72, 0x6d,
  0x20, 0x6f, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x64, 0x6f,
  0x63, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x61, 0x74,
  0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x69, 0x66, 0x20,
  0x70, 0x72, 0x6f, 0x76, 0x69, 0x64, 0x65, 0x64,
  0x20, 0x61, 0x6c, 0x6f, 0x6e, 0x67, 0x20, 0x77,
  0x69, 0x74, 0x68, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x44, 0x65, 0x72, 0x69, 0x76, 0x61, 0x74, 0x69,
  0x76, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73,
  0x3b, 0x20, 0x6f, 0x72, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x77, 0x69, 0x74, 0x68, 0x69, 0x6e, 0x20, 0x61,
  0x20, 0x64, 0x69, 0x73, 0x70, 0x6c, 0x61, 0x79,
  0x20, 0x67, 0x65, 0x6e, 0x65, 0x72, 0x61, 0x74,
  0x65, 0x64, 0x20, 0x62, 0x79, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x44, 0x65, 0x72, 0x69, 0x76, 0x61,
  0x74, 0x69, 0x76, 0x65, 0x20, 0x57, 0x6f, 0x72,
  0x6b, 0x73, 0x2c, 0x20, 0x69, 0x66, 0x20, 0x61,
  0x6e, 0x64, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x77, 0x68, 0x65,
  0x72, 0x65, 0x76, 0x65, 0x72, 0x20, 0x73, 0x75,
  0x63, 0x68, 0x20, 0x74, 0x68, 0x69, 0x72, 0x64,
  0x2d, 0x70, 0x61, 0x72, 0x74, 0x79, 0x20, 0x6e,
  0x6f, 0x74, 0x69, 0x63, 0x65, 0x73, 0x20, 0x6e,
  0x6f, 0x72, 0x6d, 0x61, 0x6c, 0x6c, 0x79, 0x20,
  0x61, 0x70, 0x70, 0x65, 0x61, 0x72, 0x2e, 0x20,
  0x54, 0x68, 0x65, 0x20, 0x63, 0x6f, 0x6e, 0x74,
  0x65, 0x6e, 0x74, 0x73, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f,
  0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x4e, 0x4f,
  0x54, 0x49, 0x43, 0x45, 0x20, 0x66, 0x69, 0x6c,
  0x65, 0x20, 0x61, 0x72, 0x65, 0x20, 0x66, 0x6f,
  0x72, 0x20, 0x69, 0x6e, 0x66, 0x6f, 0x72, 0x6d,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x61, 0x6c, 0x20,
  0x70, 0x75, 0x72, 0x70, 0x6f, 0x73, 0x65, 0x73,
  0x20, 0x6f, 0x6e, 0x6c, 0x79, 0x20, 0x61, 0x6e,
  0x64, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x64, 0x6f, 0x20, 0x6e,
  0x6f, 0x74, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66,
  0x79, 0x20, 0x74, 0x68, 0x65, 0x20, 0x4c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x65, 0x2e, 0x20, 0x59,
  0x6f, 0x75, 0x20, 0x6d, 0x61, 0x79, 0x20, 0x61,
  0x64, 0x64, 0x20, 0x59, 0x6f, 0x75, 0x72, 0x20,
  0x6f, 0x77, 0x6e, 0x20, 0x61, 0x74, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65,
  0x73, 0x20, 0x77, 0x69, 0x74, 0x68, 0x69, 0x6e,
  0x20, 0x44, 0x65, 0x72, 0x69, 0x76, 0x61, 0x74,
  0x69, 0x76, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x73, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x59,
  0x6f, 0x75, 0x20, 0x64, 0x69, 0x73, 0x74, 0x72,
  0x69, 0x62, 0x75, 0x74, 0x65, 0x2c, 0x20, 0x61,
  0x6c, 0x6f, 0x6e, 0x67, 0x73, 0x69, 0x64, 0x65,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6f, 0x72, 0x20, 0x61, 0x73,
  0x20, 0x61, 0x6e, 0x20, 0x61, 0x64, 0x64, 0x65,
  0x6e, 0x64, 0x75, 0x6d, 0x20, 0x74, 0x6f, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4e, 0x4f, 0x54, 0x49,
  0x43, 0x45, 0x20, 0x74, 0x65, 0x78, 0x74, 0x20,
  0x66, 0x72, 0x6f, 0x6d, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x2c, 0x20, 0x70,
  0x72, 0x6f, 0x76, 0x69, 0x64, 0x65, 0x64, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x73,
  0x75, 0x63, 0x68, 0x20, 0x61, 0x64, 0x64, 0x69,
  0x74, 0x69, 0x6f, 0x6e, 0x61, 0x6c, 0x20, 0x61,
  0x74, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69,
  0x6f, 0x6e, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63,
  0x65, 0x73, 0x20, 0x63, 0x61, 0x6e, 0x6e, 0x6f,
  0x74, 0x20, 0x62, 0x65, 0x20, 0x63, 0x6f, 0x6e,
  0x73, 0x74, 0x72, 0x75, 0x65, 0x64, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x61, 0x73, 0x20, 0x6d, 0x6f, 0x64, 0x69,
  0x66, 0x79, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x59, 0x6f, 0x75, 0x20, 0x6d, 0x61,
  0x79, 0x20, 0x61, 0x64, 0x64, 0x20, 0x59, 0x6f,
  0x75, 0x72, 0x20, 0x6f, 0x77, 0x6e, 0x20, 0x63,
  0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68, 0x74,
  0x20, 0x73, 0x74, 0x61, 0x74, 0x65, 0x6d, 0x65,
  0x6e, 0x74, 0x20, 0x74, 0x6f, 0x20, 0x59, 0x6f,
  0x75, 0x72, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66,
  0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x20, 0x61, 0x6e, 0x64, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6d, 0x61, 0x79, 0x20, 0x70,
  0x72, 0x6f, 0x76, 0x69, 0x64, 0x65, 0x20, 0x61,
  0x64, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x61,
  0x6c, 0x20, 0x6f, 0x72, 0x20, 0x64, 0x69, 0x66,
  0x66, 0x65, 0x72, 0x65, 0x6e, 0x74, 0x20, 0x6c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x74,
  0x65, 0x72, 0x6d, 0x73, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x75, 0x73,
  0x65, 0x2c, 0x20, 0x72, 0x65, 0x70, 0x72, 0x6f,
  0x64, 0x75, 0x63, 0x74, 0x69, 0x6f, 0x6e, 0x2c,
  0x20, 0x6f, 0x72, 0x20, 0x64, 0x69, 0x73, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x6f, 0x66, 0x20, 0x59, 0x6f, 0x75, 0x72,
  0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66, 0x69, 0x63,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x2c, 0x20,
  0x6f, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x73, 0x75, 0x63, 0x68, 0x20, 0x44, 0x65,
  0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x61,
  0x73, 0x20, 0x61, 0x20, 0x77, 0x68, 0x6f, 0x6c,
  0x65, 0x2c, 0x20, 0x70, 0x72, 0x6f, 0x76, 0x69,
  0x64, 0x65, 0x64, 0x20, 0x59, 0x6f, 0x75, 0x72,
  0x20, 0x75, 0x73, 0x65, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x72, 0x65, 0x70, 0x72,
  0x6f, 0x64, 0x75, 0x63, 0x74, 0x69, 0x6f, 0x6e,
  0x2c, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69,
  0x6f, 0x6e, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x20, 0x6f,
  0x74, 0x68, 0x65, 0x72, 0x77, 0x69, 0x73, 0x65,
  0x20, 0x63, 0x6f, 0x6d, 0x70, 0x6c, 0x69, 0x65,
  0x73, 0x20, 0x77, 0x69, 0x74, 0x68, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x73, 0x74, 0x61, 0x74,
  0x65, 0x64, 0x20, 0x69, 0x6e, 0x20, 0x74, 0x68,
  0x69, 0x73, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20,
  0x35, 0x2e, 0x20, 0x53, 0x75, 0x62, 0x6d, 0x69,
  0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66,
  0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x2e, 0x20,
  0x55, 0x6e, 0x6c, 0x65, 0x73, 0x73, 0x20, 0x59,
  0x6f, 0x75, 0x20, 0x65, 0x78, 0x70, 0x6c, 0x69,
  0x63, 0x69, 0x74, 0x6c, 0x79, 0x20, 0x73, 0x74,
  0x61, 0x74, 0x65, 0x20, 0x6f, 0x74, 0x68, 0x65,
  0x72, 0x77, 0x69, 0x73, 0x65, 0x2c, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x69, 0x6e,
  0x74, 0x65, 0x6e, 0x74, 0x69, 0x6f, 0x6e, 0x61,
  0x6c, 0x6c, 0x79, 0x20, 0x73, 0x75, 0x62, 0x6d,
  0x69, 0x74, 0x74, 0x65, 0x64, 0x20, 0x66, 0x6f,
  0x72, 0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75, 0x73,
  0x69, 0x6f, 0x6e, 0x20, 0x69, 0x6e, 0x20, 0x74,
  0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x62, 0x79,
  0x20, 0x59, 0x6f, 0x75, 0x20, 0x74, 0x6f, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x6f, 0x72, 0x20, 0x73, 0x68, 0x61,
  0x6c, 0x6c, 0x20, 0x62, 0x65, 0x20, 0x75, 0x6e,
  0x64, 0x65, 0x72, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x74, 0x65, 0x72, 0x6d, 0x73, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74,
  0x69, 0x6f, 0x6e, 0x73, 0x20, 0x6f, 0x66, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68,
  0x69, 0x73, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x2c, 0x20, 0x77, 0x69, 0x74, 0x68,
  0x6f, 0x75, 0x74, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x61, 0x64, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e,
  0x61, 0x6c, 0x20, 0x74, 0x65, 0x72, 0x6d, 0x73,
  0x20, 0x6f, 0x72, 0x20, 0x63, 0x6f, 0x6e, 0x64,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x2e, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x4e, 0x6f,
  0x74, 0x77, 0x69, 0x74, 0x68, 0x73, 0x74, 0x61,
  0x6e, 0x64, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x61, 0x62, 0x6f, 0x76, 0x65, 0x2c,
  0x20, 0x6e, 0x6f, 0x74, 0x68, 0x69, 0x6e, 0x67,
  0x20, 0x68, 0x65, 0x72, 0x65, 0x69, 0x6e, 0x20,
  0x73, 0x68, 0x61, 0x6c, 0x6c, 0x20, 0x73, 0x75,
  0x70, 0x65, 0x72, 0x73, 0x65, 0x64, 0x65, 0x20,
  0x6f, 0x72, 0x20, 0x6d, 0x6f, 0x64, 0x69, 0x66,
  0x79, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x74, 0x65, 0x72, 0x6d,
  0x73, 0x20, 0x6f, 0x66, 0x20, 0x61, 0x6e, 0x79,
  0x20, 0x73, 0x65, 0x70, 0x61, 0x72, 0x61, 0x74,
  0x65, 0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x20, 0x61, 0x67, 0x72, 0x65, 0x65, 0x6d,
  0x65, 0x6e, 0x74, 0x20, 0x79, 0x6f, 0x75, 0x20,
  0x6d, 0x61, 0x79, 0x20, 0x68, 0x61, 0x76, 0x65,
  0x20, 0x65, 0x78, 0x65, 0x63, 0x75, 0x74, 0x65,
  0x64, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x77, 0x69, 0x74, 0x68, 0x20, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x6f, 0x72, 0x20, 0x72, 0x65,
  0x67, 0x61, 0x72, 0x64, 0x69, 0x6e, 0x67, 0x20,
  0x73, 0x75, 0x63, 0x68, 0x20, 0x43, 0x6f, 0x6e,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f,
  0x6e, 0x73, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20,
  0x36, 0x2e, 0x20, 0x54, 0x72, 0x61, 0x64, 0x65,
  0x6d, 0x61, 0x72, 0x6b, 0x73, 0x2e, 0x20, 0x54,
  0x68, 0x69, 0x73, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x20, 0x64, 0x6f, 0x65, 0x73,
  0x20, 0x6e, 0x6f, 0x74, 0x20, 0x67, 0x72, 0x61,
  0x6e, 0x74, 0x20, 0x70, 0x65, 0x72, 0x6d, 0x69,
  0x73, 0x73, 0x69, 0x6f, 0x6e, 0x20, 0x74, 0x6f,
  0x20, 0x75, 0x73, 0x65, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x74, 0x72, 0x61, 0x64, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x6e, 0x61, 0x6d,
  0x65, 0x73, 0x2c, 0x20, 0x74, 0x72, 0x61, 0x64,
  0x65, 0x6d, 0x61, 0x72, 0x6b, 0x73, 0x2c, 0x20,
  0x73, 0x65, 0x72, 0x76, 0x69, 0x63, 0x65, 0x20,
  0x6d, 0x61, 0x72, 0x6b, 0x73, 0x2c, 0x20, 0x6f,
  0x72, 0x20, 0x70, 0x72, 0x6f, 0x64, 0x75, 0x63,
  0x74, 0x20, 0x6e, 0x61, 0x6d, 0x65, 0x73, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x6f, 0x72, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x65,
  0x78, 0x63, 0x65, 0x70, 0x74, 0x20, 0x61, 0x73,
  0x20, 0x72, 0x65, 0x71, 0x75, 0x69, 0x72, 0x65,
  0x64, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x72, 0x65,
  0x61, 0x73, 0x6f, 0x6e, 0x61, 0x62, 0x6c, 0x65,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x63, 0x75, 0x73,
  0x74, 0x6f, 0x6d, 0x61, 0x72, 0x79, 0x20, 0x75,
  0x73, 0x65, 0x20, 0x69, 0x6e, 0x20, 0x64, 0x65,
  0x73, 0x63, 0x72, 0x69, 0x62, 0x69, 0x6e, 0x67,
  0x20, 0x74, 0x68, 0x65, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6f, 0x72, 0x69, 0x67, 0x69,
  0x6e, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x72, 0x65, 0x70, 0x72, 0x6f, 0x64,
  0x75, 0x63, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x63, 0x6f, 0x6e, 0x74, 0x65, 0x6e,
  0x74, 0x20, 0x6f, 0x66, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x4e, 0x4f, 0x54, 0x49, 0x43, 0x45, 0x20,
  0x66, 0x69, 0x6c, 0x65, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x37, 0x2e, 0x20, 0x44, 0x69, 0x73,
  0x63, 0x6c, 0x61, 0x69, 0x6d, 0x65, 0x72, 0x20,
  0x6f, 0x66, 0x20, 0x57, 0x61, 0x72, 0x72, 0x61,
  0x6e, 0x74, 0x79, 0x2e, 0x20, 0x55, 0x6e, 0x6c,
  0x65, 0x73, 0x73, 0x20, 0x72, 0x65, 0x71, 0x75,
  0x69, 0x72, 0x65, 0x64, 0x20, 0x62, 0x79, 0x20,
  0x61, 0x70, 0x70, 0x6c, 0x69, 0x63, 0x61, 0x62,
  0x6c, 0x65, 0x20, 0x6c, 0x61, 0x77, 0x20, 0x6f,
  0x72, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x61, 0x67, 0x72, 0x65, 0x65, 0x64, 0x20, 0x74,
  0x6f, 0x20, 0x69, 0x6e, 0x20, 0x77, 0x72, 0x69,
  0x74, 0x69, 0x6e, 0x67, 0x2c, 0x20, 0x4c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x6f, 0x72, 0x20, 0x70,
  0x72, 0x6f, 0x76, 0x69, 0x64, 0x65, 0x73, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x57, 0x6f, 0x72, 0x6b,
  0x20, 0x28, 0x61, 0x6e, 0x64, 0x20, 0x65, 0x61,
  0x63, 0x68, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x6f, 0x72, 0x20, 0x70, 0x72, 0x6f,
  0x76, 0x69, 0x64, 0x65, 0x73, 0x20, 0x69, 0x74,
  0x73, 0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x29,
  0x20, 0x6f, 0x6e, 0x20, 0x61, 0x6e, 0x20, 0x22,
  0x41, 0x53, 0x20, 0x49, 0x53, 0x22, 0x20, 0x42,
  0x41, 0x53, 0x49, 0x53, 0x2c, 0x0a, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x57, 0x49, 0x54, 0x48,
  0x4f, 0x55, 0x54, 0x20, 0x57, 0x41, 0x52, 0x52,
  0x41, 0x4e, 0x54, 0x49, 0x45, 0x53, 0x20, 0x4f,
  0x52, 0x20, 0x43, 0x4f, 0x4e, 0x44, 0x49, 0x54,
  0x49, 0x4f, 0x4e, 0x53, 0x20, 0x4f, 0x46, 0x20,
  0x41, 0x4e, 0x59, 0x20, 0x4b, 0x49, 0x4e, 0x44,
  0x2c, 0x20, 0x65, 0x69, 0x74, 0x68, 0x65, 0x72,
  0x20, 0x65, 0x78, 0x70, 0x72, 0x65, 0x73, 0x73,
  0x20, 0x6f, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x69, 0x6d, 0x70, 0x6c, 0x69, 0x65,
  0x64, 0x2c, 0x20, 0x69, 0x6e, 0x63, 0x6c, 0x75,
  0x64, 0x69, 0x6e, 0x67, 0x2c, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x6f, 0x75, 0x74, 0x20, 0x6c, 0x69,
  0x6d, 0x69, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x2c, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x77, 0x61,
  0x72, 0x72, 0x61, 0x6e, 0x74, 0x69, 0x65, 0x73,
  0x20, 0x6f, 0x72, 0x20, 0x63, 0x6f, 0x6e, 0x64,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x6f, 0x66, 0x20,
  0x54, 0x49, 0x54, 0x4c, 0x45, 0x2c, 0x20, 0x4e,
  0x4f, 0x4e, 0x2d, 0x49, 0x4e, 0x46, 0x52, 0x49,
  0x4e, 0x47, 0x45, 0x4d, 0x45, 0x4e, 0x54, 0x2c,
  0x20, 0x4d, 0x45, 0x52, 0x43, 0x48, 0x41, 0x4e,
  0x54, 0x41, 0x42, 0x49, 0x4c, 0x49, 0x54, 0x59,
  0x2c, 0x20, 0x6f, 0x72, 0x20, 0x46, 0x49, 0x54,
  0x4e, 0x45, 0x53, 0x53, 0x20, 0x46, 0x4f, 0x52,
  0x20, 0x41, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x50, 0x41, 0x52, 0x54, 0x49, 0x43, 0x55,
  0x4c, 0x41, 0x52, 0x20, 0x50, 0x55, 0x52, 0x50,
  0x4f, 0x53, 0x45, 0x2e, 0x20, 0x59, 0x6f, 0x75,
  0x20, 0x61, 0x72, 0x65, 0x20, 0x73, 0x6f, 0x6c,
  0x65, 0x6c, 0x79, 0x20, 0x72, 0x65, 0x73, 0x70,
  0x6f, 0x6e, 0x73, 0x69, 0x62, 0x6c, 0x65, 0x20,
  0x66, 0x6f, 0x72, 0x20, 0x64, 0x65, 0x74, 0x65,
  0x72, 0x6d, 0x69, 0x6e, 0x69, 0x6e, 0x67, 0x20,
  0x74, 0x68, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x61, 0x70, 0x70, 0x72, 0x6f, 0x70,
  0x72, 0x69, 0x61, 0x74, 0x65, 0x6e, 0x65, 0x73,
  0x73, 0x20, 0x6f, 0x66, 0x20, 0x75, 0x73, 0x69,
  0x6e, 0x67, 0x20, 0x6f, 0x72, 0x20, 0x72, 0x65,
  0x64, 0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x69, 0x6e, 0x67, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x61, 0x73, 0x73, 0x75, 0x6d, 0x65,
  0x20, 0x61, 0x6e, 0x79, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x72, 0x69, 0x73, 0x6b, 0x73,
  0x20, 0x61, 0x73, 0x73, 0x6f, 0x63, 0x69, 0x61,
  0x74, 0x65, 0x64, 0x20, 0x77, 0x69, 0x74, 0x68,
  0x20, 0x59, 0x6f, 0x75, 0x72, 0x20, 0x65, 0x78,
  0x65, 0x72, 0x63, 0x69, 0x73, 0x65, 0x20, 0x6f,
  0x66, 0x20, 0x70, 0x65, 0x72, 0x6d, 0x69, 0x73,
  0x73, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x75, 0x6e,
  0x64, 0x65, 0x72, 0x20, 0x74, 0x68, 0x69, 0x73,
  0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65,
  0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x38, 0x2e,
  0x20, 0x4c, 0x69, 0x6d, 0x69, 0x74, 0x61, 0x74,
  0x69, 0x6f, 0x6e, 0x20, 0x6f, 0x66, 0x20, 0x4c,
  0x69, 0x61, 0x62, 0x69, 0x6c, 0x69, 0x74, 0x79,
  0x2e, 0x20, 0x49, 0x6e, 0x20, 0x6e, 0x6f, 0x20,
  0x65, 0x76, 0x65, 0x6e, 0x74, 0x20, 0x61, 0x6e,
  0x64, 0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20,
  0x6e, 0x6f, 0x20, 0x6c, 0x65, 0x67, 0x61, 0x6c,
  0x20, 0x74, 0x68, 0x65, 0x6f, 0x72, 0x79, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x77,
  0x68, 0x65, 0x74, 0x68, 0x65, 0x72, 0x20, 0x69,
  0x6e, 0x20, 0x74, 0x6f, 0x72, 0x74, 0x20, 0x28,
  0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x69, 0x6e,
  0x67, 0x20, 0x6e, 0x65, 0x67, 0x6c, 0x69, 0x67,
  0x65, 0x6e, 0x63, 0x65, 0x29, 0x2c, 0x20, 0x63,
  0x6f, 0x6e, 0x74, 0x72, 0x61, 0x63, 0x74, 0x2c,
  0x20, 0x6f, 0x72, 0x20, 0x6f, 0x74, 0x68, 0x65,
  0x72, 0x77, 0x69, 0x73, 0x65, 0x2c, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x75, 0x6e, 0x6c,
  0x65, 0x73, 0x73, 0x20, 0x72, 0x65, 0x71, 0x75,
  0x69, 0x72, 0x65, 0x64, 0x20, 0x62, 0x79, 0x20,
  0x61, 0x70, 0x70, 0x6c, 0x69, 0x63, 0x61, 0x62,
  0x6c, 0x65, 0x20, 0x6c, 0x61, 0x77, 0x20, 0x28,
  0x73, 0x75, 0x63, 0x68, 0x20, 0x61, 0x73, 0x20,
  0x64, 0x65, 0x6c, 0x69, 0x62, 0x65, 0x72, 0x61,
  0x74, 0x65, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x67,
  0x72, 0x6f, 0x73, 0x73, 0x6c, 0x79, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x6e, 0x65, 0x67,
  0x6c, 0x69, 0x67, 0x65, 0x6e, 0x74, 0x20, 0x61,
  0x63, 0x74, 0x73, 0x29, 0x20, 0x6f, 0x72, 0x20,
  0x61, 0x67, 0x72, 0x65, 0x65, 0x64, 0x20, 0x74,
  0x6f, 0x20, 0x69, 0x6e, 0x20, 0x77, 0x72, 0x69,
  0x74, 0x69, 0x6e, 0x67, 0x2c, 0x20, 0x73, 0x68,
  0x61, 0x6c, 0x6c, 0x20, 0x61, 0x6e, 0x79, 0x20,
  0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62, 0x75,
  0x74, 0x6f, 0x72, 0x20, 0x62, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x6c, 0x69, 0x61,
  0x62, 0x6c, 0x65, 0x20, 0x74, 0x6f, 0x20, 0x59,
  0x6f, 0x75, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x64,
  0x61, 0x6d, 0x61, 0x67, 0x65, 0x73, 0x2c, 0x20,
  0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x69, 0x6e,
  0x67, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x64, 0x69,
  0x72, 0x65, 0x63, 0x74, 0x2c, 0x20, 0x69, 0x6e,
  0x64, 0x69, 0x72, 0x65, 0x63, 0x74, 0x2c, 0x20,
  0x73, 0x70, 0x65, 0x63, 0x69, 0x61, 0x6c, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x69,
  0x6e, 0x63, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x61,
  0x6c, 0x2c, 0x20, 0x6f, 0x72, 0x20, 0x63, 0x6f,
  0x6e, 0x73, 0x65, 0x71, 0x75, 0x65, 0x6e, 0x74,
  0x69, 0x61, 0x6c, 0x20, 0x64, 0x61, 0x6d, 0x61,
  0x67, 0x65, 0x73, 0x20, 0x6f, 0x66, 0x20, 0x61,
  0x6e, 0x79, 0x20, 0x63, 0x68, 0x61, 0x72, 0x61,
  0x63, 0x74, 0x65, 0x72, 0x20, 0x61, 0x72, 0x69,
  0x73, 0x69, 0x6e, 0x67, 0x20, 0x61, 0x73, 0x20,
  0x61, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x72, 0x65, 0x73, 0x75, 0x6c, 0x74, 0x20, 0x6f,
  0x66, 0x20, 0x74, 0x68, 0x69, 0x73, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x6f,
  0x72, 0x20, 0x6f, 0x75, 0x74, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x75, 0x73, 0x65,
  0x20, 0x6f, 0x72, 0x20, 0x69, 0x6e, 0x61, 0x62,
  0x69, 0x6c, 0x69, 0x74, 0x79, 0x20, 0x74, 0x6f,
  0x20, 0x75, 0x73, 0x65, 0x20, 0x74, 0x68, 0x65,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x57,
  0x6f, 0x72, 0x6b, 0x20, 0x28, 0x69, 0x6e, 0x63,
  0x6c, 0x75, 0x64, 0x69, 0x6e, 0x67, 0x20, 0x62,
  0x75, 0x74, 0x20, 0x6e, 0x6f, 0x74, 0x20, 0x6c,
  0x69, 0x6d, 0x69, 0x74, 0x65, 0x64, 0x20, 0x74,
  0x6f, 0x20, 0x64, 0x61, 0x6d, 0x61, 0x67, 0x65,
  0x73, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x6c, 0x6f,
  0x73, 0x73, 0x20, 0x6f, 0x66, 0x20, 0x67, 0x6f,
  0x6f, 0x64, 0x77, 0x69, 0x6c, 0x6c, 0x2c, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x77, 0x6f,
  0x72, 0x6b, 0x20, 0x73, 0x74, 0x6f, 0x70, 0x70,
  0x61, 0x67, 0x65, 0x2c, 0x20, 0x63, 0x6f, 0x6d,
  0x70, 0x75, 0x74, 0x65, 0x72, 0x20, 0x66, 0x61,
  0x69, 0x6c, 0x75, 0x72, 0x65, 0x20, 0x6f, 0x72,
  0x20, 0x6d, 0x61, 0x6c, 0x66, 0x75, 0x6e, 0x63,
  0x74, 0x69, 0x6f, 0x6e, 0x2c, 0x20, 0x6f, 0x72,
  0x20, 0x61, 0x6e, 0x79, 0x20, 0x61, 0x6e, 0x64,
  0x20, 0x61, 0x6c, 0x6c, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x6f, 0x74, 0x68, 0x65, 0x72,
  0x20, 0x63, 0x6f, 0x6d, 0x6d, 0x65, 0x72, 0x63,
  0x69, 0x61, 0x6c, 0x20, 0x64, 0x61, 0x6d, 0x61,
  0x67, 0x65, 0x73, 0x20, 0x6f, 0x72, 0x20, 0x6c,
  0x6f, 0x73, 0x73, 0x65, 0x73, 0x29, 0x2c, 0x20,
  0x65, 0x76, 0x65, 0x6e, 0x20, 0x69, 0x66, 0x20,
  0x73, 0x75, 0x63, 0x68, 0x20, 0x43, 0x6f, 0x6e,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x6f, 0x72,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x68,
  0x61, 0x73, 0x20, 0x62, 0x65, 0x65, 0x6e, 0x20,
  0x61, 0x64, 0x76, 0x69, 0x73, 0x65, 0x64, 0x20,
  0x6f, 0x66, 0x20, 0x74, 0x68, 0x65, 0x20, 0x70,
  0x6f, 0x73, 0x73, 0x69, 0x62, 0x69, 0x6c, 0x69,
  0x74, 0x79, 0x20, 0x6f, 0x66, 0x20, 0x73, 0x75,
  0x63, 0x68, 0x20, 0x64, 0x61, 0x6d, 0x61, 0x67,
  0x65, 0x73, 0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x20,
  0x39, 0x2e, 0x20, 0x41, 0x63, 0x63, 0x65, 0x70,
  0x74, 0x69, 0x6e, 0x67, 0x20, 0x57, 0x61, 0x72,
  0x72, 0x61, 0x6e, 0x74, 0x79, 0x20, 0x6f, 0x72,
  0x20, 0x41, 0x64, 0x64, 0x69, 0x74, 0x69, 0x6f,
  0x6e, 0x61, 0x6c, 0x20, 0x4c, 0x69, 0x61, 0x62,
  0x69, 0x6c, 0x69, 0x74, 0x79, 0x2e, 0x20, 0x57,
  0x68, 0x69, 0x6c, 0x65, 0x20, 0x72, 0x65, 0x64,
  0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x69, 0x6e, 0x67, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x74, 0x68, 0x65, 0x20, 0x57, 0x6f,
  0x72, 0x6b, 0x20, 0x6f, 0x72, 0x20, 0x44, 0x65,
  0x72, 0x69, 0x76, 0x61, 0x74, 0x69, 0x76, 0x65,
  0x20, 0x57, 0x6f, 0x72, 0x6b, 0x73, 0x20, 0x74,
  0x68, 0x65, 0x72, 0x65, 0x6f, 0x66, 0x2c, 0x20,
  0x59, 0x6f, 0x75, 0x20, 0x6d, 0x61, 0x79, 0x20,
  0x63, 0x68, 0x6f, 0x6f, 0x73, 0x65, 0x20, 0x74,
  0x6f, 0x20, 0x6f, 0x66, 0x66, 0x65, 0x72, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x61,
  0x6e, 0x64, 0x20, 0x63, 0x68, 0x61, 0x72, 0x67,
  0x65, 0x20, 0x61, 0x20, 0x66, 0x65, 0x65, 0x20,
  0x66, 0x6f, 0x72, 0x2c, 0x20, 0x61, 0x63, 0x63,
  0x65, 0x70, 0x74, 0x61, 0x6e, 0x63, 0x65, 0x20,
  0x6f, 0x66, 0x20, 0x73, 0x75, 0x70, 0x70, 0x6f,
  0x72, 0x74, 0x2c, 0x20, 0x77, 0x61, 0x72, 0x72,
  0x61, 0x6e, 0x74, 0x79, 0x2c, 0x20, 0x69, 0x6e,
  0x64, 0x65, 0x6d, 0x6e, 0x69, 0x74, 0x79, 0x2c,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f,
  0x72, 0x20, 0x6f, 0x74, 0x68, 0x65, 0x72, 0x20,
  0x6c, 0x69, 0x61, 0x62, 0x69, 0x6c, 0x69, 0x74,
  0x79, 0x20, 0x6f, 0x62, 0x6c, 0x69, 0x67, 0x61,
  0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x61, 0x6e,
  0x64, 0x2f, 0x6f, 0x72, 0x20, 0x72, 0x69, 0x67,
  0x68, 0x74, 0x73, 0x20, 0x63, 0x6f, 0x6e, 0x73,
  0x69, 0x73, 0x74, 0x65, 0x6e, 0x74, 0x20, 0x77,
  0x69, 0x74, 0x68, 0x20, 0x74, 0x68, 0x69, 0x73,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x2e, 0x20,
  0x48, 0x6f, 0x77, 0x65, 0x76, 0x65, 0x72, 0x2c,
  0x20, 0x69, 0x6e, 0x20, 0x61, 0x63, 0x63, 0x65,
  0x70, 0x74, 0x69, 0x6e, 0x67, 0x20, 0x73, 0x75,
  0x63, 0x68, 0x20, 0x6f, 0x62, 0x6c, 0x69, 0x67,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x2c, 0x20,
  0x59, 0x6f, 0x75, 0x20, 0x6d, 0x61, 0x79, 0x20,
  0x61, 0x63, 0x74, 0x20, 0x6f, 0x6e, 0x6c, 0x79,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f,
  0x6e, 0x20, 0x59, 0x6f, 0x75, 0x72, 0x20, 0x6f,
  0x77, 0x6e, 0x20, 0x62, 0x65, 0x68, 0x61, 0x6c,
  0x66, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x6f, 0x6e,
  0x20, 0x59, 0x6f, 0x75, 0x72, 0x20, 0x73, 0x6f,
  0x6c, 0x65, 0x20, 0x72, 0x65, 0x73, 0x70, 0x6f,
  0x6e, 0x73, 0x69, 0x62, 0x69, 0x6c, 0x69, 0x74,
  0x79, 0x2c, 0x20, 0x6e, 0x6f, 0x74, 0x20, 0x6f,
  0x6e, 0x20, 0x62, 0x65, 0x68, 0x61, 0x6c, 0x66,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6f,
  0x66, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x6f, 0x74,
  0x68, 0x65, 0x72, 0x20, 0x43, 0x6f, 0x6e, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x6f, 0x72, 0x2c,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x6f, 0x6e, 0x6c,
  0x79, 0x20, 0x69, 0x66, 0x20, 0x59, 0x6f, 0x75,
  0x20, 0x61, 0x67, 0x72, 0x65, 0x65, 0x20, 0x74,
  0x6f, 0x20, 0x69, 0x6e, 0x64, 0x65, 0x6d, 0x6e,
  0x69, 0x66, 0x79, 0x2c, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x64, 0x65, 0x66, 0x65, 0x6e,
  0x64, 0x2c, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x68,
  0x6f, 0x6c, 0x64, 0x20, 0x65, 0x61, 0x63, 0x68,
  0x20, 0x43, 0x6f, 0x6e, 0x74, 0x72, 0x69, 0x62,
  0x75, 0x74, 0x6f, 0x72, 0x20, 0x68, 0x61, 0x72,
  0x6d, 0x6c, 0x65, 0x73, 0x73, 0x20, 0x66, 0x6f,
  0x72, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x6c, 0x69,
  0x61, 0x62, 0x69, 0x6c, 0x69, 0x74, 0x79, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x69, 0x6e,
  0x63, 0x75, 0x72, 0x72, 0x65, 0x64, 0x20, 0x62,
  0x79, 0x2c, 0x20, 0x6f, 0x72, 0x20, 0x63, 0x6c,
  0x61, 0x69, 0x6d, 0x73, 0x20, 0x61, 0x73, 0x73,
  0x65, 0x72, 0x74, 0x65, 0x64, 0x20, 0x61, 0x67,
  0x61, 0x69, 0x6e, 0x73, 0x74, 0x2c, 0x20, 0x73,
  0x75, 0x63, 0x68, 0x20, 0x43, 0x6f, 0x6e, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x6f, 0x72, 0x20,
  0x62, 0x79, 0x20, 0x72, 0x65, 0x61, 0x73, 0x6f,
  0x6e, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x6f, 0x66, 0x20, 0x79, 0x6f, 0x75, 0x72, 0x20,
  0x61, 0x63, 0x63, 0x65, 0x70, 0x74, 0x69, 0x6e,
  0x67, 0x20, 0x61, 0x6e, 0x79, 0x20, 0x73, 0x75,
  0x63, 0x68, 0x20, 0x77, 0x61, 0x72, 0x72, 0x61,
  0x6e, 0x74, 0x79, 0x20, 0x6f, 0x72, 0x20, 0x61,
  0x64, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x61,
  0x6c, 0x20, 0x6c, 0x69, 0x61, 0x62, 0x69, 0x6c,
  0x69, 0x74, 0x79, 0x2e, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x45, 0x4e, 0x44, 0x20, 0x4f, 0x46, 0x20,
  0x54, 0x45, 0x52, 0x4d, 0x53, 0x20, 0x41, 0x4e,
  0x44, 0x20, 0x43, 0x4f, 0x4e, 0x44, 0x49, 0x54,
  0x49, 0x4f, 0x4e, 0x53, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x41, 0x50, 0x50, 0x45, 0x4e, 0x44, 0x49,
  0x58, 0x3a, 0x20, 0x48, 0x6f, 0x77, 0x20, 0x74,
  0x6f, 0x20, 0x61, 0x70, 0x70, 0x6c, 0x79, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x41, 0x70, 0x61, 0x63,
  0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x20, 0x74, 0x6f, 0x20, 0x79, 0x6f,
  0x75, 0x72, 0x20, 0x77, 0x6f, 0x72, 0x6b, 0x2e,
  0x0a, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x54, 0x6f, 0x20, 0x61, 0x70, 0x70, 0x6c, 0x79,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x41, 0x70, 0x61,
  0x63, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x20, 0x74, 0x6f, 0x20, 0x79,
  0x6f, 0x75, 0x72, 0x20, 0x77, 0x6f, 0x72, 0x6b,
  0x2c, 0x20, 0x61, 0x74, 0x74, 0x61, 0x63, 0x68,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x66, 0x6f, 0x6c,
  0x6c, 0x6f, 0x77, 0x69, 0x6e, 0x67, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x62, 0x6f, 0x69,
  0x6c, 0x65, 0x72, 0x70, 0x6c, 0x61, 0x74, 0x65,
  0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65, 0x2c,
  0x20, 0x77, 0x69, 0x74, 0x68, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x66, 0x69, 0x65, 0x6c, 0x64, 0x73,
  0x20, 0x65, 0x6e, 0x63, 0x6c, 0x6f, 0x73, 0x65,
  0x64, 0x20, 0x62, 0x79, 0x20, 0x62, 0x72, 0x61,
  0x63, 0x6b, 0x65, 0x74, 0x73, 0x20, 0x22, 0x5b,
  0x5d, 0x22, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x72, 0x65, 0x70, 0x6c, 0x61, 0x63, 0x65,
  0x64, 0x20, 0x77, 0x69, 0x74, 0x68, 0x20, 0x79,
  0x6f, 0x75, 0x72, 0x20, 0x6f, 0x77, 0x6e, 0x20,
  0x69, 0x64, 0x65, 0x6e, 0x74, 0x69, 0x66, 0x79,
  0x69, 0x6e, 0x67, 0x20, 0x69, 0x6e, 0x66, 0x6f,
  0x72, 0x6d, 0x61, 0x74, 0x69, 0x6f, 0x6e, 0x2e,
  0x20, 0x28, 0x44, 0x6f, 0x6e, 0x27, 0x74, 0x20,
  0x69, 0x6e, 0x63, 0x6c, 0x75, 0x64, 0x65, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x62, 0x72, 0x61, 0x63, 0x6b, 0x65,
  0x74, 0x73, 0x21, 0x29, 0x20, 0x20, 0x54, 0x68,
  0x65, 0x20, 0x74, 0x65, 0x78, 0x74, 0x20, 0x73,
  0x68, 0x6f, 0x75, 0x6c, 0x64, 0x20, 0x62, 0x65,
  0x20, 0x65, 0x6e, 0x63, 0x6c, 0x6f, 0x73, 0x65,
  0x64, 0x20, 0x69, 0x6e, 0x20, 0x74, 0x68, 0x65,
  0x20, 0x61, 0x70, 0x70, 0x72, 0x6f, 0x70, 0x72,
  0x69, 0x61, 0x74, 0x65, 0x0a, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x20, 0x63, 0x6f, 0x6d, 0x6d, 0x65,
  0x6e, 0x74, 0x20, 0x73, 0x79, 0x6e, 0x74, 0x61,
  0x78, 0x20, 0x66, 0x6f, 0x72, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x6d, 0x61, 0x74, 0x2e, 0x20, 0x57,
  0x65, 0x20, 0x61, 0x6c, 0x73, 0x6f, 0x20, 0x72,
  0x65, 0x63, 0x6f, 0x6d, 0x6d, 0x65, 0x6e, 0x64,
  0x20, 0x74, 0x68, 0x61, 0x74, 0x20, 0x61, 0x0a,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x66, 0x69,
  0x6c, 0x65, 0x20, 0x6f, 0x72, 0x20, 0x63, 0x6c,
  0x61, 0x73, 0x73, 0x20, 0x6e, 0x61, 0x6d, 0x65,
  0x20, 0x61, 0x6e, 0x64, 0x20, 0x64, 0x65, 0x73,
  0x63, 0x72, 0x69, 0x70, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x6f, 0x66, 0x20, 0x70, 0x75, 0x72, 0x70,
  0x6f, 0x73, 0x65, 0x20, 0x62, 0x65, 0x20, 0x69,
  0x6e, 0x63, 0x6c, 0x75, 0x64, 0x65, 0x64, 0x20,
  0x6f, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x20, 0x73, 0x61, 0x6d,
  0x65, 0x20, 0x22, 0x70, 0x72, 0x69, 0x6e, 0x74,
  0x65, 0x64, 0x20, 0x70, 0x61, 0x67, 0x65, 0x22,
  0x20, 0x61, 0x73, 0x20, 0x74, 0x68, 0x65, 0x20,
  0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68,
  0x74, 0x20, 0x6e, 0x6f, 0x74, 0x69, 0x63, 0x65,
  0x20, 0x66, 0x6f, 0x72, 0x20, 0x65, 0x61, 0x73,
  0x69, 0x65, 0x72, 0x0a, 0x20, 0x20, 0x20, 0x20,
  0x20, 0x20, 0x69, 0x64, 0x65, 0x6e, 0x74, 0x69,
  0x66, 0x69, 0x63, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x20, 0x77, 0x69, 0x74, 0x68, 0x69, 0x6e, 0x20,
  0x74, 0x68, 0x69, 0x72, 0x64, 0x2d, 0x70, 0x61,
  0x72, 0x74, 0x79, 0x20, 0x61, 0x72, 0x63, 0x68,
  0x69, 0x76, 0x65, 0x73, 0x2e, 0x0a, 0x0a, 0x20,
  0x20, 0x20, 0x43, 0x6f, 0x70, 0x79, 0x72, 0x69,
  0x67, 0x68, 0x74, 0x20, 0x5b, 0x79, 0x79, 0x79,
  0x79, 0x5d, 0x20, 0x5b, 0x6e, 0x61, 0x6d, 0x65,
  0x20, 0x6f, 0x66, 0x20, 0x63, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x6f, 0x77,
  0x6e, 0x65, 0x72, 0x5d, 0x0a, 0x0a, 0x20, 0x20,
  0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65,
  0x64, 0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x41, 0x70, 0x61, 0x63,
  0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e,
  0x73, 0x65, 0x2c, 0x20, 0x56, 0x65, 0x72, 0x73,
  0x69, 0x6f, 0x6e, 0x20, 0x32, 0x2e, 0x30, 0x20,
  0x28, 0x74, 0x68, 0x65, 0x20, 0x22, 0x4c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x65, 0x22, 0x29, 0x3b,
  0x0a, 0x20, 0x20, 0x20, 0x79, 0x6f, 0x75, 0x20,
  0x6d, 0x61, 0x79, 0x20, 0x6e, 0x6f, 0x74, 0x20,
  0x75, 0x73, 0x65, 0x20, 0x74, 0x68, 0x69, 0x73,
  0x20, 0x66, 0x69, 0x6c, 0x65, 0x20, 0x65, 0x78,
  0x63, 0x65, 0x70, 0x74, 0x20, 0x69, 0x6e, 0x20,
  0x63, 0x6f, 0x6d, 0x70, 0x6c, 0x69, 0x61, 0x6e,
  0x63, 0x65, 0x20, 0x77, 0x69, 0x74, 0x68, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x2e, 0x0a, 0x20, 0x20, 0x20,
  0x59, 0x6f, 0x75, 0x20, 0x6d, 0x61, 0x79, 0x20,
  0x6f, 0x62, 0x74, 0x61, 0x69, 0x6e, 0x20, 0x61,
  0x20, 0x63, 0x6f, 0x70, 0x79, 0x20, 0x6f, 0x66,
  0x20, 0x74, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x65, 0x20, 0x61, 0x74, 0x0a,
  0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x68, 0x74, 0x74, 0x70, 0x3a, 0x2f, 0x2f, 0x77,
  0x77, 0x77, 0x2e, 0x61, 0x70, 0x61, 0x63, 0x68,
  0x65, 0x2e, 0x6f, 0x72, 0x67, 0x2f, 0x6c, 0x69,
  0x63, 0x65, 0x6e, 0x73, 0x65, 0x73, 0x2f, 0x4c,
  0x49, 0x43, 0x45, 0x4e, 0x53, 0x45, 0x2d, 0x32,
  0x2e, 0x30, 0x0a, 0x0a, 0x20, 0x20, 0x20, 0x55,
  0x6e, 0x6c, 0x65, 0x73, 0x73, 0x20, 0x72, 0x65,
  0x71, 0x75, 0x69, 0x72, 0x65, 0x64, 0x20, 0x62,
  0x79, 0x20, 0x61, 0x70, 0x70, 0x6c, 0x69, 0x63,
  0x61, 0x62, 0x6c, 0x65, 0x20, 0x6c, 0x61, 0x77,
  0x20, 0x6f, 0x72, 0x20, 0x61, 0x67, 0x72, 0x65,
  0x65, 0x64, 0x20, 0x74, 0x6f, 0x20, 0x69, 0x6e,
  0x20, 0x77, 0x72, 0x69, 0x74, 0x69, 0x6e, 0x67,
  0x2c, 0x20, 0x73, 0x6f, 0x66, 0x74, 0x77, 0x61,
  0x72, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x64, 0x69,
  0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x65,
  0x64, 0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x20, 0x69, 0x73, 0x20, 0x64,
  0x69, 0x73, 0x74, 0x72, 0x69, 0x62, 0x75, 0x74,
  0x65, 0x64, 0x20, 0x6f, 0x6e, 0x20, 0x61, 0x6e,
  0x20, 0x22, 0x41, 0x53, 0x20, 0x49, 0x53, 0x22,
  0x20, 0x42, 0x41, 0x53, 0x49, 0x53, 0x2c, 0x0a,
  0x20, 0x20, 0x20, 0x57, 0x49, 0x54, 0x48, 0x4f,
  0x55, 0x54, 0x20, 0x57, 0x41, 0x52, 0x52, 0x41,
  0x4e, 0x54, 0x49, 0x45, 0x53, 0x20, 0x4f, 0x52,
  0x20, 0x43, 0x4f, 0x4e, 0x44, 0x49, 0x54, 0x49,
  0x4f, 0x4e, 0x53, 0x20, 0x4f, 0x46, 0x20, 0x41,
  0x4e, 0x59, 0x20, 0x4b, 0x49, 0x4e, 0x44, 0x2c,
  0x20, 0x65, 0x69, 0x74, 0x68, 0x65, 0x72, 0x20,
  0x65, 0x78, 0x70, 0x72, 0x65, 0x73, 0x73, 0x20,
  0x6f, 0x72, 0x20, 0x69, 0x6d, 0x70, 0x6c, 0x69,
  0x65, 0x64, 0x2e, 0x0a, 0x20, 0x20, 0x20, 0x53,
  0x65, 0x65, 0x20, 0x74, 0x68, 0x65, 0x20, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x20, 0x74, 0x68, 0x65, 0x20, 0x73,
  0x70, 0x65, 0x63, 0x69, 0x66, 0x69, 0x63, 0x20,
  0x6c, 0x61, 0x6e, 0x67, 0x75, 0x61, 0x67, 0x65,
  0x20, 0x67, 0x6f, 0x76, 0x65, 0x72, 0x6e, 0x69,
  0x6e, 0x67, 0x20, 0x70, 0x65, 0x72, 0x6d, 0x69,
  0x73, 0x73, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x61,
  0x6e, 0x64, 0x0a, 0x20, 0x20, 0x20, 0x6c, 0x69,
  0x6d, 0x69, 0x74, 0x61, 0x74, 0x69, 0x6f, 0x6e,
  0x73, 0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x4c, 0x69, 0x63, 0x65,
  0x6e, 0x73, 0x65, 0x2e, 0x0a, 0x0a, 0x0a, 0x4c,
  0x69, 0x63, 0x65, 0x6e, 0x73, 0x65, 0x20, 0x66,
  0x6f, 0x72, 0x20, 0x75, 0x72, 0x6c, 0x5f, 0x65,
  0x6e, 0x63, 0x6f, 0x64, 0x65, 0x2e, 0x63, 0x2f,
  0x75, 0x72, 0x6c, 0x5f, 0x65, 0x6e, 0x63, 0x6f,
  0x64, 0x65, 0x2e, 0x68, 0x0a, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d, 0x2d,
  0x2d, 0x2d, 0x0a, 0x54, 0x68, 0x69, 0x73, 0x20,
  0x73, 0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65,
  0x20, 0x69, 0x73, 0x20, 0x43, 0x6f, 0x70, 0x79,
  0x72, 0x69, 0x67, 0x68, 0x74, 0x20, 0x28, 0x63,
  0x29, 0x20, 0x32, 0x30, 0x31, 0x36, 0x20, 0x62,
  0x79, 0x20, 0x44, 0x61, 0x76, 0x69, 0x64, 0x20,
  0x46, 0x61, 0x72, 0x72, 0x65, 0x6c, 0x6c, 0x2e,
  0x0a, 0x0a, 0x54, 0x68, 0x69, 0x73, 0x20, 0x69,
  0x73, 0x20, 0x66, 0x72, 0x65, 0x65, 0x20, 0x73,
  0x6f, 0x66, 0x74, 0x77, 0x61, 0x72, 0x65, 0x2c,
  0x20, 0x6c, 0x69, 0x63, 0x65, 0x6e, 0x73, 0x65,
  0x64, 0x20, 0x75, 0x6e, 0x64, 0x65, 0x72, 0x3a,
  0x0a, 0x0a, 0x20, 0x20, 0x54, 0x68, 0x65, 0x20,
  0x28, 0x74, 0x77, 0x6f, 0x2d, 0x63, 0x6c, 0x61,
  0x75, 0x73, 0x65, 0x29, 0x20, 0x46, 0x72, 0x65,
  0x65, 0x42, 0x53, 0x44, 0x20, 0x4c, 0x69, 0x63,
  0x65, 0x6e, 0x73, 0x65, 0x0a, 0x0a, 0x54, 0x68,
  0x65, 0x20, 0x46, 0x72, 0x65, 0x65, 0x42, 0x53,
  0x44, 0x20, 0x4c, 0x69, 0x63, 0x65, 0x6e, 0x73,
  0x65, 0x0a, 0x0a, 0x52, 0x65, 0x64, 0x69, 0x73,
  0x74, 0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f,
  0x6e, 0x20, 0x61, 0x6e, 0x64, 0x20, 0x75, 0x73,
  0x65, 0x20, 0x69, 0x6e, 0x20, 0x73, 0x6f, 0x75,
  0x72, 0x63, 0x65, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x62, 0x69, 0x6e, 0x61, 0x72, 0x79, 0x20, 0x66,
  0x6f, 0x72, 0x6d, 0x73, 0x2c, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x20, 0x6f, 0x72, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x6f, 0x75, 0x74, 0x0a, 0x6d, 0x6f,
  0x64, 0x69, 0x66, 0x69, 0x63, 0x61, 0x74, 0x69,
  0x6f, 0x6e, 0x2c, 0x20, 0x61, 0x72, 0x65, 0x20,
  0x70, 0x65, 0x72, 0x6d, 0x69, 0x74, 0x74, 0x65,
  0x64, 0x20, 0x70, 0x72, 0x6f, 0x76, 0x69, 0x64,
  0x65, 0x64, 0x20, 0x74, 0x68, 0x61, 0x74, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x66, 0x6f, 0x6c, 0x6c,
  0x6f, 0x77, 0x69, 0x6e, 0x67, 0x20, 0x63, 0x6f,
  0x6e, 0x64, 0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73,
  0x20, 0x61, 0x72, 0x65, 0x0a, 0x6d, 0x65, 0x74,
  0x3a, 0x0a, 0x0a, 0x20, 0x20, 0x31, 0x2e, 0x20,
  0x52, 0x65, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20,
  0x6f, 0x66, 0x20, 0x73, 0x6f, 0x75, 0x72, 0x63,
  0x65, 0x20, 0x63, 0x6f, 0x64, 0x65, 0x20, 0x6d,
  0x75, 0x73, 0x74, 0x20, 0x72, 0x65, 0x74, 0x61,
  0x69, 0x6e, 0x20, 0x74, 0x68, 0x65, 0x20, 0x61,
  0x62, 0x6f, 0x76, 0x65, 0x20, 0x63, 0x6f, 0x70,
  0x79, 0x72, 0x69, 0x67, 0x68, 0x74, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x6e, 0x6f, 0x74, 0x69,
  0x63, 0x65, 0x2c, 0x20, 0x74, 0x68, 0x69, 0x73,
  0x20, 0x6c, 0x69, 0x73, 0x74, 0x20, 0x6f, 0x66,
  0x20, 0x63, 0x6f, 0x6e, 0x64, 0x69, 0x74, 0x69,
  0x6f, 0x6e, 0x73, 0x20, 0x61, 0x6e, 0x64, 0x20,
  0x74, 0x68, 0x65, 0x20, 0x66, 0x6f, 0x6c, 0x6c,
  0x6f, 0x77, 0x69, 0x6e, 0x67, 0x20, 0x64, 0x69,
  0x73, 0x63, 0x6c, 0x61, 0x69, 0x6d, 0x65, 0x72,
  0x2e, 0x0a, 0x0a, 0x20, 0x20, 0x32, 0x2e, 0x20,
  0x52, 0x65, 0x64, 0x69, 0x73, 0x74, 0x72, 0x69,
  0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20,
  0x69, 0x6e, 0x20, 0x62, 0x69, 0x6e, 0x61, 0x72,
  0x79, 0x20, 0x66, 0x6f, 0x72, 0x6d, 0x20, 0x6d,
  0x75, 0x73, 0x74, 0x20, 0x72, 0x65, 0x70, 0x72,
  0x6f, 0x64, 0x75, 0x63, 0x65, 0x20, 0x74, 0x68,
  0x65, 0x20, 0x61, 0x62, 0x6f, 0x76, 0x65, 0x20,
  0x63, 0x6f, 0x70, 0x79, 0x72, 0x69, 0x67, 0x68,
  0x74, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20, 0x6e,
  0x6f, 0x74, 0x69, 0x63, 0x65, 0x2c, 0x20, 0x74,
  0x68, 0x69, 0x73, 0x20, 0x6c, 0x69, 0x73, 0x74,
  0x20, 0x6f, 0x66, 0x20, 0x63, 0x6f, 0x6e, 0x64,
  0x69, 0x74, 0x69, 0x6f, 0x6e, 0x73, 0x20, 0x61,
  0x6e, 0x64, 0x20, 0x74, 0x68, 0x65, 0x20, 0x66,
  0x6f, 0x6c, 0x6c, 0x6f, 0x77, 0x69, 0x6e, 0x67,
  0x20, 0x64, 0x69, 0x73, 0x63, 0x6c, 0x61, 0x69,
  0x6d, 0x65, 0x72, 0x20, 0x69, 0x6e, 0x20, 0x74,
  0x68, 0x65, 0x0a, 0x20, 0x20, 0x20, 0x20, 0x20,
  0x64, 0x6f, 0x63, 0x75, 0x6d, 0x65, 0x6e, 0x74,
  0x61, 0x74, 0x69, 0x6f, 0x6e, 0x20, 0x61, 0x6e,
  0x64, 0x2f, 0x6f, 0x72, 0x20, 0x6f, 0x74, 0x68,
  0x65, 0x72, 0x20, 0x6d, 0x61, 0x74, 0x65, 0x72,
  0x69, 0x61, 0x6c, 0x73, 0x20, 0x70, 0x72, 0x6f,
  0x76, 0x69, 0x64, 0x65, 0x64, 0x20, 0x77, 0x69,
  0x74, 0x68, 0x20, 0x74, 0x68, 0x65, 0x0a, 0x20,
  0x20, 0x20, 0x20, 0x20, 0x64, 0x69, 0x73, 0x74,
  0x72, 0x69, 0x62, 0x75, 0x74, 0x69, 0x6f, 0x6e,
  0x2e, 0x0a, 0x0a, 0x54, 0x48, 0x49, 0x53, 0x20,
  0x53, 0x4f, 0x46, 0x54, 0x57, 0x41, 0x52, 0x45,
  0x20, 0x49, 0x53, 0x20, 0x50, 0x52, 0x4f, 0x56,
  0x49, 0x44, 0x45, 0x44, 0x20, 0x42, 0x59, 0x20,
  0x54, 0x48, 0x45, 0x20, 0x43, 0x4f, 0x50, 0x59,
  0x52, 0x49, 0x47, 0x48, 0x54, 0x20, 0x48, 0x4f,
  0x4c, 0x44, 0x45, 0x52, 0x53, 0x20, 0x41, 0x4e,
  0x44, 0x20, 0x43, 0x4f, 0x4e, 0x54, 0x52, 0x49,
  0x42, 0x55, 0x54, 0x4f, 0x52, 0x53, 0x0a, 0x22,
  0x41, 0x53, 0x20, 0x49, 0x53, 0x22, 0x20, 0x41,
  0x4e, 0x44, 0x20, 0x41, 0x4e, 0x59, 0x20, 0x45,
  0x58, 0x50, 0x52, 0x45, 0x53, 0x53, 0x20, 0x4f,
  0x52, 0x20, 0x49, 0x4d, 0x50, 0x4c, 0x49, 0x45,
  0x44, 0x20, 0x57, 0x41, 0x52, 0x52, 0x41, 0x4e,
  0x54, 0x49, 0x45, 0x53, 0x2c, 0x20, 0x49, 0x4e,
  0x43, 0x4c, 0x55, 0x44, 0x49, 0x4e, 0x47, 0x2c,
  0x20, 0x42, 0x55, 0x54, 0x20, 0x4e, 0x4f, 0x54,
  0x0a, 0x4c, 0x49, 0x4d, 0x49, 0x54, 0x45, 0x44,
  0x20, 0x54, 0x4f, 0x2c, 0x20, 0x54, 0x48, 0x45,
  0x20, 0x49, 0x4d, 0x50, 0x4c, 0x49, 0x45, 0x44,
  0x20, 0x57, 0x41, 0x52, 0x52, 0x41, 0x4e, 0x54,
  0x49, 0x45, 0x53, 0x20, 0x4f, 0x46, 0x20, 0x4d,
  0x45, 0x52, 0x43, 0x48, 0x41, 0x4e, 0x54, 0x41,
  0x42, 0x49, 0x4c, 0x49, 0x54, 0x59, 0x20, 0x41,
  0x4e, 0x44, 0x20, 0x46, 0x49, 0x54, 0x4e, 0x45,
  0x53, 0x53, 0x20, 0x46, 0x4f, 0x52, 0x0a, 0x41,
  0x20, 0x50, 0x41, 0x52, 0x54, 0x49, 0x43, 0x55,
  0x4c, 0x41, 0x52, 0x20, 0x50, 0x55, 0x52, 0x50,
  0x4f, 0x53, 0x45, 0x20, 0x41, 0x52, 0x45, 0x20,
  0x44, 0x49, 0x53, 0x43, 0x4c, 0x41, 0x49, 0x4d,
  0x45, 0x44, 0x2e, 0x20, 0x49, 0x4e, 0x20, 0x4e,
  0x4f, 0x20, 0x45, 0x56, 0x45, 0x4e, 0x54, 0x20,
  0x53, 0x48, 0x41, 0x4c, 0x4c, 0x20, 0x54, 0x48,
  0x45, 0x20, 0x43, 0x4f, 0x50, 0x59, 0x52, 0x49,
  0x47, 0x48, 0x54, 0x0a, 0x48, 0x4f, 0x4c, 0x44,
  0x45, 0x52, 0x20, 0x4f, 0x52, 0x20, 0x43, 0x4f,
  0x4e, 0x54, 0x52, 0x49, 0x42, 0x55, 0x54, 0x4f,
  0x52, 0x53, 0x20, 0x42, 0x45, 0x20, 0x4c, 0x49,
  0x41, 0x42, 0x4c, 0x45, 0x20, 0x46, 0x4f, 0x52,
  0x20, 0x41, 0x4e, 0x59, 0x20, 0x44, 0x49, 0x52,
  0x45, 0x43, 0x54, 0x2c, 0x20, 0x49, 0x4e, 0x44,
  0x49, 0x52, 0x45, 0x43, 0x54, 0x2c, 0x20, 0x49,
  0x4e, 0x43, 0x49, 0x44, 0x45, 0x4e, 0x54, 0x41,
  0x4c, 0x2c, 0x0a, 0x53, 0x50, 0x45, 0x43, 0x49,
  0x41, 0x4c, 0x2c, 0x20, 0x45, 0x58, 0x45, 0x4d,
  0x50, 0x4c, 0x41, 0x52, 0x59, 0x2c, 0x20, 0x4f,
  0x52, 0x20, 0x43, 0x4f, 0x4e, 0x53, 0x45, 0x51,
  0x55, 0x45, 0x4e, 0x54, 0x49, 0x41, 0x4c, 0x20,
  0x44, 0x41, 0x4d, 0x41, 0x47, 0x45, 0x53, 0x20,
  0x28, 0x49, 0x4e, 0x43, 0x4c, 0x55, 0x44, 0x49,
  0x4e, 0x47, 0x2c, 0x20, 0x42, 0x55, 0x54, 0x20,
  0x4e, 0x4f, 0x54, 0x0a, 0x4c, 0x49, 0x4d, 0x49,
  0x54, 0x45, 0x44, 0x20, 0x54, 0x4f, 0x2c, 0x20,
  0x50, 0x52, 0x4f, 0x43, 0x55, 0x52, 0x45, 0x4d,
  0x45, 0x4e, 0x54, 0x20, 0x4f, 0x46, 0x20, 0x53,
  0x55, 0x42, 0x53, 0x54, 0x49, 0x54, 0x55, 0x54,
  0x45, 0x20, 0x47, 0x4f, 0x4f, 0x44, 0x53, 0x20,
  0x4f, 0x52, 0x20, 0x53, 0x45, 0x52, 0x56, 0x49,
  0x43, 0x45, 0x53, 0x3b, 0x20, 0x4c, 0x4f, 0x53,
  0x53, 0x20, 0x4f, 0x46, 0x20, 0x55, 0x53, 0x45,
  0x2c, 0x0a, 0x44, 0x41, 0x54, 0x41, 0x2c, 0x20,
  0x4f, 0x52, 0x20, 0x50, 0x52, 0x4f, 0x46, 0x49,
  0x54, 0x53, 0x3b, 0x20, 0x4f, 0x52, 0x20, 0x42,
  0x55, 0x53, 0x49, 0x4e, 0x45, 0x53, 0x53, 0x20,
  0x49, 0x4e, 0x54, 0x45, 0x52, 0x52, 0x55, 0x50,
  0x54, 0x49, 0x4f, 0x4e, 0x29, 0x20, 0x48, 0x4f,
  0x57, 0x45, 0x56, 0x45, 0x52, 0x20, 0x43, 0x41,
  0x55, 0x53, 0x45, 0x44, 0x20, 0x41, 0x4e, 0x44,
  0x20, 0x4f, 0x4e, 0x20, 0x41, 0x4e, 0x59, 0x0a,
  0x54, 0x48, 0x45, 0x4f, 0x52, 0x59, 0x20, 0x4f,
  0x46, 0x20, 0x4c, 0x49, 0x41, 0x42, 0x49, 0x4c,
  0x49, 0x54, 0x59, 0x2c, 0x20, 0x57, 0x48, 0x45,
  0x54, 0x48, 0x45, 0x52, 0x20, 0x49, 0x4e, 0x20,
  0x43, 0x4f, 0x4e, 0x54, 0x52, 0x41, 0x43, 0x54,
  0x2c, 0x20, 0x53, 0x54, 0x52, 0x49, 0x43, 0x54,
  0x20, 0x4c, 0x49, 0x41, 0x42, 0x49, 0x4c, 0x49,
  0x54, 0x59, 0x2c, 0x20, 0x4f, 0x52, 0x20, 0x54,
  0x4f, 0x52, 0x54, 0x0a, 0x28, 0x49, 0x4e, 0x43,
  0x4c, 0x55, 0x44, 0x49, 0x4e, 0x47, 0x20, 0x4e,
  0x45, 0x47, 0x4c, 0x49, 0x47, 0x45, 0x4e, 0x43,
  0x45, 0x20, 0x4f, 0x52, 0x20, 0x4f, 0x54, 0x48,
  0x45, 0x52, 0x57, 0x49, 0x53, 0x45, 0x29, 0x20,
  0x41, 0x52, 0x49, 0x53, 0x49, 0x4e, 0x47, 0x20,
  0x49, 0x4e, 0x20, 0x41, 0x4e, 0x59, 0x20, 0x57,
  0x41, 0x59, 0x20, 0x4f, 0x55, 0x54, 0x20, 0x4f,
  0x46, 0x20, 0x54, 0x48, 0x45, 0x20, 0x55, 0x53,
  0x45, 0x0a, 0x4f, 0x46, 0x20, 0x54, 0x48, 0x49,
  0x53, 0x20, 0x53, 0x4f, 0x46, 0x54, 0x57, 0x41,
  0x52, 0x45, 0x2c, 0x20, 0x45, 0x56, 0x45, 0x4e,
  0x20, 0x49, 0x46, 0x20, 0x41, 0x44, 0x56, 0x49,
  0x53, 0x45, 0x44, 0x20, 0x4f, 0x46, 0x20, 0x54,
  0x48, 0x45, 0x20, 0x50, 0x4f, 0x53, 0x53, 0x49,
  0x42, 0x49, 0x4c, 0x49, 0x54, 0x59, 0x20, 0x4f,
  0x46, 0x20, 0x53, 0x55, 0x43, 0x48, 0x20, 0x44,
  0x41, 0x4d, 0x41, 0x47, 0x45, 0x2e, 0x0a,
  0x0a, 0x0a,  /* separator */
  0x00  /* terminating NUL */
};

const char *dlite_get_license(void) {
  return content;
}
