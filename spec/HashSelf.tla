------------------------------ MODULE HashSelf ------------------------------
(* The hash functions against digests computed elsewhere (Python's hashlib,   *)
(* and those published with RIPEMD-160).  Written by tools/gen_hashself.py.   *)
EXTENDS Hash
\* <<function, key of an HMAC or << >>, message, digest>>
Table == <<
  << "SHA1", << >>, << >>, << 218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9 >> >>,
  << "SHA1", << >>, << 3, 10, 17 >>, << 66, 1, 222, 159, 152, 203, 10, 155, 140, 245, 35, 152, 190, 120, 2, 181, 93, 69, 38, 106 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 221, 245, 115, 23, 239, 52, 191, 238, 59, 109, 248, 61, 53, 144, 152, 147, 14, 178, 120, 188 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 160, 212, 146, 187, 15, 200, 137, 208, 236, 163, 188, 19, 112, 102, 171, 111, 79, 116, 243, 105 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 190, 222, 146, 190, 41, 195, 135, 78, 27, 84, 221, 199, 121, 136, 214, 6, 252, 133, 122, 142 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 74, 1, 177, 39, 38, 39, 229, 190, 0, 245, 123, 195, 195, 2, 156, 35, 164, 82, 230, 41 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 84, 192, 140, 42, 14, 210, 29, 226, 94, 61, 134, 6, 195, 146, 148, 84, 235, 29, 63, 139 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 160, 145, 51, 230, 115, 15, 254, 137, 158, 251, 112, 32, 76, 181, 100, 108, 213, 220, 36, 238 >> >>,
  << "SHA1", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 137, 43, 103, 60, 163, 198, 150, 171, 19, 171, 138, 171, 60, 243, 171, 251, 195, 170, 235, 59 >> >>,
  << "SHA224", << >>, << >>, << 209, 74, 2, 140, 42, 58, 43, 201, 71, 97, 2, 187, 40, 130, 52, 196, 21, 162, 176, 31, 130, 142, 166, 42, 197, 179, 228, 47 >> >>,
  << "SHA224", << >>, << 3, 10, 17 >>, << 149, 106, 126, 158, 238, 252, 79, 97, 117, 232, 205, 51, 124, 210, 138, 128, 246, 160, 169, 136, 179, 254, 14, 214, 71, 180, 169, 83 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 112, 58, 125, 110, 97, 200, 57, 3, 181, 219, 84, 221, 246, 221, 162, 38, 130, 17, 180, 124, 144, 187, 218, 194, 237, 48, 109, 138 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 133, 15, 239, 53, 71, 141, 122, 148, 164, 23, 113, 61, 189, 237, 74, 57, 193, 139, 226, 180, 14, 111, 32, 244, 112, 102, 211, 6 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 228, 128, 193, 194, 31, 253, 63, 16, 159, 192, 205, 224, 218, 249, 103, 199, 72, 147, 43, 100, 248, 226, 89, 217, 141, 177, 116, 32 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 93, 91, 162, 70, 154, 125, 179, 227, 213, 182, 34, 189, 239, 187, 143, 239, 85, 130, 34, 43, 15, 61, 212, 29, 180, 182, 32, 117 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 223, 86, 74, 252, 177, 59, 244, 160, 176, 141, 13, 49, 50, 65, 138, 214, 63, 82, 49, 7, 230, 0, 63, 53, 6, 22, 122, 91 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 109, 249, 131, 232, 156, 140, 19, 206, 205, 251, 95, 22, 252, 103, 121, 42, 227, 196, 208, 98, 223, 105, 18, 77, 136, 154, 57, 111 >> >>,
  << "SHA224", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 103, 230, 212, 71, 135, 45, 109, 229, 240, 165, 57, 21, 172, 78, 136, 182, 15, 8, 137, 94, 51, 248, 69, 53, 0, 213, 189, 48 >> >>,
  << "SHA256", << >>, << >>, << 227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153, 111, 185, 36, 39, 174, 65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85 >> >>,
  << "SHA256", << >>, << 3, 10, 17 >>, << 106, 176, 219, 161, 244, 241, 223, 187, 55, 180, 249, 238, 176, 146, 192, 159, 202, 73, 0, 173, 50, 189, 205, 20, 125, 141, 222, 53, 214, 200, 124, 53 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 231, 49, 61, 51, 60, 39, 46, 99, 159, 121, 9, 120, 40, 63, 158, 179, 146, 232, 67, 208, 242, 155, 112, 22, 130, 139, 177, 218, 164, 170, 199, 11 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 67, 36, 214, 95, 60, 16, 53, 103, 245, 88, 156, 113, 11, 192, 143, 133, 35, 249, 41, 169, 39, 46, 58, 243, 111, 201, 104, 229, 42, 188, 108, 39 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 57, 227, 215, 182, 181, 208, 117, 211, 125, 5, 58, 216, 155, 36, 180, 27, 239, 79, 60, 41, 118, 12, 132, 68, 124, 171, 63, 59, 225, 136, 34, 65 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 103, 217, 73, 46, 98, 143, 211, 118, 224, 178, 239, 236, 140, 162, 185, 155, 18, 62, 32, 44, 246, 32, 222, 178, 112, 114, 141, 249, 121, 178, 247, 62 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 150, 185, 40, 207, 248, 82, 141, 187, 153, 96, 44, 112, 154, 101, 184, 70, 203, 100, 103, 172, 184, 183, 34, 240, 215, 88, 228, 220, 39, 191, 197, 8 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 210, 116, 47, 31, 74, 198, 187, 124, 162, 178, 57, 238, 24, 64, 43, 168, 179, 249, 248, 230, 82, 210, 167, 41, 115, 194, 185, 186, 17, 192, 140, 246 >> >>,
  << "SHA256", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 44, 126, 24, 201, 66, 239, 6, 91, 82, 106, 45, 78, 85, 70, 40, 55, 73, 205, 61, 223, 181, 29, 143, 199, 31, 66, 113, 115, 99, 104, 95, 70 >> >>,
  << "SHA384", << >>, << >>, << 56, 176, 96, 167, 81, 172, 150, 56, 76, 217, 50, 126, 177, 177, 227, 106, 33, 253, 183, 17, 20, 190, 7, 67, 76, 12, 199, 191, 99, 246, 225, 218, 39, 78, 222, 191, 231, 111, 101, 251, 213, 26, 210, 241, 72, 152, 185, 91 >> >>,
  << "SHA384", << >>, << 3, 10, 17 >>, << 222, 80, 96, 32, 60, 88, 180, 25, 241, 54, 193, 118, 102, 211, 57, 160, 87, 5, 87, 88, 39, 227, 96, 15, 4, 117, 246, 251, 48, 137, 135, 10, 237, 226, 108, 90, 9, 3, 222, 165, 147, 139, 205, 237, 78, 233, 230, 25 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 252, 39, 40, 244, 82, 117, 13, 8, 181, 219, 173, 26, 234, 83, 32, 46, 127, 193, 156, 6, 137, 77, 19, 227, 108, 67, 59, 4, 68, 168, 153, 39, 124, 73, 241, 110, 5, 119, 192, 61, 176, 240, 96, 85, 120, 131, 110, 246 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 108, 150, 154, 134, 95, 56, 210, 234, 172, 96, 183, 150, 58, 132, 201, 123, 162, 123, 203, 118, 229, 137, 203, 225, 226, 232, 158, 173, 106, 238, 74, 208, 51, 122, 66, 104, 240, 84, 190, 73, 198, 4, 221, 217, 150, 146, 3, 109 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 153, 210, 100, 48, 245, 97, 134, 76, 47, 125, 144, 182, 134, 80, 185, 96, 200, 108, 133, 214, 191, 127, 84, 206, 238, 228, 4, 189, 213, 150, 99, 167, 240, 85, 136, 181, 199, 80, 184, 98, 162, 162, 79, 106, 154, 212, 192, 80 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 52, 19, 136, 169, 220, 34, 117, 7, 78, 144, 207, 57, 67, 35, 118, 25, 25, 118, 28, 128, 95, 217, 227, 112, 151, 124, 153, 102, 160, 232, 200, 26, 82, 19, 95, 2, 87, 118, 112, 176, 7, 22, 56, 164, 162, 109, 188, 49 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 97, 156, 197, 208, 97, 56, 82, 109, 112, 101, 158, 204, 246, 2, 209, 151, 230, 62, 16, 80, 226, 32, 57, 167, 254, 180, 10, 48, 165, 178, 176, 143, 176, 55, 41, 226, 145, 223, 18, 248, 197, 118, 230, 241, 205, 138, 242, 42 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 232, 72, 14, 156, 77, 217, 15, 136, 16, 74, 121, 203, 172, 206, 196, 142, 219, 215, 152, 161, 66, 180, 242, 65, 215, 38, 220, 37, 47, 21, 2, 53, 14, 130, 76, 125, 24, 218, 221, 89, 215, 215, 22, 145, 159, 184, 249, 191 >> >>,
  << "SHA384", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 141, 235, 131, 83, 95, 163, 93, 47, 73, 60, 108, 54, 149, 177, 5, 123, 25, 35, 45, 47, 83, 26, 13, 57, 141, 43, 149, 132, 19, 133, 90, 161, 89, 75, 107, 204, 160, 221, 203, 210, 74, 152, 19, 48, 167, 255, 28, 193 >> >>,
  << "SHA512", << >>, << >>, << 207, 131, 225, 53, 126, 239, 184, 189, 241, 84, 40, 80, 214, 109, 128, 7, 214, 32, 228, 5, 11, 87, 21, 220, 131, 244, 169, 33, 211, 108, 233, 206, 71, 208, 209, 60, 93, 133, 242, 176, 255, 131, 24, 210, 135, 126, 236, 47, 99, 185, 49, 189, 71, 65, 122, 129, 165, 56, 50, 122, 249, 39, 218, 62 >> >>,
  << "SHA512", << >>, << 3, 10, 17 >>, << 136, 83, 22, 122, 177, 76, 4, 57, 25, 152, 26, 100, 9, 48, 126, 246, 139, 91, 114, 111, 75, 128, 220, 171, 37, 157, 170, 36, 183, 202, 188, 184, 180, 187, 253, 62, 46, 54, 237, 152, 70, 80, 89, 102, 31, 103, 46, 101, 41, 205, 204, 103, 62, 126, 171, 250, 120, 221, 49, 134, 116, 91, 17, 42 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 20, 253, 66, 75, 31, 202, 222, 230, 36, 218, 148, 106, 176, 63, 126, 29, 239, 124, 13, 110, 0, 246, 137, 89, 67, 25, 136, 26, 38, 255, 48, 184, 117, 186, 76, 98, 42, 193, 49, 0, 200, 204, 120, 76, 156, 46, 178, 49, 89, 174, 203, 180, 160, 46, 57, 153, 6, 47, 85, 17, 147, 226, 178, 86 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 72, 15, 168, 91, 228, 30, 245, 90, 65, 32, 140, 162, 143, 252, 135, 67, 201, 28, 247, 210, 71, 88, 222, 254, 111, 149, 191, 177, 109, 230, 20, 252, 134, 183, 1, 3, 72, 150, 176, 71, 221, 87, 29, 228, 49, 136, 83, 216, 14, 8, 9, 223, 22, 47, 23, 82, 203, 38, 218, 109, 219, 148, 160, 221 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 143, 60, 195, 11, 63, 181, 191, 150, 54, 136, 164, 100, 136, 36, 146, 72, 172, 44, 103, 240, 248, 90, 20, 82, 51, 198, 193, 227, 193, 109, 205, 29, 246, 52, 192, 125, 29, 49, 218, 2, 87, 111, 101, 185, 207, 100, 225, 195, 253, 179, 24, 182, 137, 184, 161, 78, 46, 149, 82, 188, 243, 15, 177, 51 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 104, 207, 250, 109, 13, 118, 243, 9, 201, 206, 13, 53, 40, 9, 57, 248, 226, 89, 144, 196, 59, 123, 8, 108, 205, 247, 9, 190, 53, 176, 125, 77, 219, 165, 153, 84, 31, 242, 177, 193, 157, 52, 234, 73, 174, 175, 185, 101, 154, 219, 122, 195, 192, 176, 120, 187, 48, 162, 45, 87, 252, 102, 135, 239 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 208, 134, 92, 82, 77, 29, 221, 247, 194, 59, 121, 156, 65, 63, 90, 220, 215, 202, 239, 211, 246, 106, 155, 73, 117, 14, 200, 16, 102, 1, 44, 37, 168, 188, 249, 77, 222, 166, 220, 82, 86, 145, 103, 48, 151, 202, 64, 224, 16, 30, 137, 127, 201, 114, 24, 207, 219, 7, 4, 8, 78, 43, 239, 75 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 153, 177, 111, 23, 170, 11, 150, 154, 91, 143, 8, 243, 103, 113, 157, 81, 110, 51, 12, 205, 38, 96, 182, 240, 104, 142, 192, 49, 219, 199, 131, 222, 80, 161, 205, 24, 90, 37, 104, 219, 167, 80, 112, 162, 64, 61, 23, 212, 116, 29, 22, 53, 120, 81, 93, 253, 47, 247, 86, 221, 254, 77, 71, 177 >> >>,
  << "SHA512", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 204, 163, 192, 39, 96, 70, 239, 159, 40, 151, 189, 252, 62, 195, 48, 247, 127, 73, 89, 145, 75, 20, 98, 189, 88, 27, 35, 45, 219, 62, 154, 169, 138, 207, 95, 90, 43, 33, 199, 244, 157, 46, 67, 114, 29, 170, 97, 162, 181, 206, 230, 175, 96, 82, 223, 235, 118, 110, 102, 221, 176, 209, 113, 156 >> >>,
  << "MD5", << >>, << >>, << 212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126 >> >>,
  << "MD5", << >>, << 3, 10, 17 >>, << 201, 174, 228, 129, 5, 35, 239, 134, 88, 18, 27, 141, 73, 44, 107, 65 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125 >>, << 82, 192, 229, 116, 225, 25, 141, 229, 254, 63, 143, 17, 68, 13, 203, 27 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132 >>, << 70, 201, 144, 127, 201, 8, 238, 104, 177, 231, 184, 231, 18, 134, 165, 24 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 113, 96, 184, 251, 94, 158, 64, 35, 213, 73, 195, 151, 31, 186, 238, 173 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5 >>, << 19, 240, 12, 177, 95, 12, 63, 229, 136, 209, 193, 124, 222, 20, 179, 143 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12 >>, << 95, 230, 169, 247, 107, 84, 30, 198, 69, 85, 149, 137, 218, 154, 8, 138 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 16, 178, 218, 26, 130, 241, 109, 153, 168, 26, 114, 3, 254, 159, 2, 203 >> >>,
  << "MD5", << >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131, 138, 145, 152, 159, 166, 173, 180, 187, 194, 201, 208, 215, 222, 229, 236, 243, 250, 1, 8, 15, 22, 29, 36, 43, 50, 57, 64, 71, 78, 85, 92, 99, 106, 113, 120, 127, 134, 141, 148, 155, 162, 169, 176, 183, 190, 197, 204, 211, 218, 225, 232, 239, 246, 253, 4, 11, 18, 25, 32, 39, 46, 53, 60, 67, 74, 81, 88, 95, 102, 109, 116 >>, << 76, 121, 184, 26, 201, 75, 173, 122, 135, 85, 25, 206, 107, 150, 76, 102 >> >>,
  << "SHA1", << 0 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 186, 115, 188, 113, 227, 222, 119, 18, 166, 191, 79, 252, 16, 72, 35, 191, 63, 218, 254, 205 >> >>,
  << "SHA1", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 178, 242, 51, 38, 179, 194, 89, 199, 5, 248, 17, 214, 130, 8, 81, 132, 157, 157, 87, 30 >> >>,
  << "SHA1", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 218, 225, 141, 236, 251, 2, 112, 33, 8, 232, 61, 65, 110, 137, 59, 17, 42, 85, 240, 86 >> >>,
  << "SHA1", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 164, 242, 183, 158, 149, 133, 33, 168, 232, 20, 229, 156, 253, 213, 179, 19, 81, 26, 146, 198 >> >>,
  << "SHA1", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 157, 192, 178, 222, 240, 37, 48, 199, 247, 214, 6, 194, 56, 69, 23, 41, 34, 163, 250, 227 >> >>,
  << "SHA1", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 221, 232, 209, 21, 242, 95, 33, 125, 132, 180, 164, 205, 152, 28, 169, 167, 27, 122, 164, 43 >> >>,
  << "SHA256", << 0 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 80, 159, 163, 206, 180, 37, 176, 164, 62, 78, 70, 5, 54, 75, 55, 32, 27, 255, 192, 223, 157, 182, 175, 23, 216, 166, 136, 191, 211, 18, 50, 185 >> >>,
  << "SHA256", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 138, 125, 14, 13, 219, 7, 205, 61, 128, 243, 12, 238, 62, 78, 34, 88, 187, 224, 166, 56, 45, 109, 155, 209, 234, 211, 182, 185, 250, 69, 230, 184 >> >>,
  << "SHA256", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 223, 109, 11, 213, 117, 180, 242, 43, 17, 156, 234, 167, 164, 152, 92, 179, 6, 76, 226, 229, 26, 209, 132, 226, 225, 165, 8, 128, 222, 119, 130, 168 >> >>,
  << "SHA256", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 35, 24, 40, 143, 186, 18, 121, 250, 13, 253, 183, 123, 226, 202, 126, 0, 148, 233, 106, 248, 79, 247, 130, 196, 53, 242, 183, 121, 66, 47, 184, 42 >> >>,
  << "SHA256", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 85, 117, 253, 45, 47, 41, 155, 53, 19, 232, 134, 126, 171, 84, 77, 145, 158, 13, 81, 123, 40, 16, 56, 237, 120, 104, 188, 67, 61, 210, 227, 23 >> >>,
  << "SHA256", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 79, 14, 166, 139, 9, 222, 100, 128, 245, 6, 52, 39, 227, 27, 251, 163, 110, 170, 222, 152, 135, 217, 180, 139, 38, 215, 188, 70, 42, 153, 233, 116 >> >>,
  << "SHA512", << 0 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 119, 94, 139, 213, 216, 69, 209, 115, 212, 38, 64, 42, 67, 176, 179, 14, 72, 149, 92, 27, 193, 26, 146, 100, 172, 50, 119, 46, 127, 88, 16, 125, 186, 229, 37, 65, 225, 178, 233, 8, 116, 141, 177, 134, 65, 158, 28, 88, 197, 10, 229, 207, 57, 8, 57, 19, 40, 112, 254, 8, 15, 221, 31, 125 >> >>,
  << "SHA512", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 211, 176, 134, 189, 44, 212, 133, 134, 216, 219, 12, 190, 0, 232, 209, 251, 45, 239, 231, 116, 218, 27, 232, 198, 104, 16, 64, 101, 158, 11, 57, 153, 178, 8, 252, 214, 15, 208, 73, 52, 201, 176, 133, 51, 103, 36, 24, 134, 89, 139, 224, 50, 194, 117, 59, 68, 66, 67, 197, 98, 185, 199, 142, 79 >> >>,
  << "SHA512", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 13, 235, 138, 38, 7, 39, 76, 195, 170, 223, 51, 225, 79, 243, 180, 119, 78, 83, 210, 68, 215, 29, 176, 63, 229, 93, 35, 63, 197, 6, 27, 121, 170, 50, 56, 28, 66, 139, 148, 58, 168, 198, 69, 52, 92, 173, 119, 120, 162, 219, 128, 171, 229, 71, 128, 177, 149, 31, 221, 180, 163, 29, 221, 43 >> >>,
  << "SHA512", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 243, 31, 97, 222, 59, 155, 23, 19, 122, 17, 29, 107, 79, 7, 63, 22, 218, 242, 11, 44, 203, 218, 71, 4, 108, 210, 152, 38, 63, 48, 119, 34, 122, 190, 11, 249, 251, 139, 130, 153, 180, 44, 96, 130, 117, 25, 217, 214, 18, 217, 48, 243, 173, 172, 187, 65, 152, 145, 232, 249, 19, 160, 143, 68 >> >>,
  << "SHA512", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 140, 21, 45, 211, 131, 155, 189, 70, 119, 244, 165, 245, 148, 220, 6, 221, 34, 125, 143, 213, 141, 10, 228, 32, 88, 181, 245, 212, 192, 80, 214, 148, 144, 157, 157, 29, 252, 98, 169, 159, 2, 190, 235, 174, 20, 189, 84, 238, 253, 211, 71, 41, 35, 227, 26, 115, 103, 181, 125, 245, 249, 178, 46, 42 >> >>,
  << "SHA512", << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90, 97, 104, 111, 118, 125, 132, 139, 146, 153, 160, 167, 174, 181, 188, 195, 202, 209, 216, 223, 230, 237, 244, 251, 2, 9, 16, 23, 30, 37, 44, 51, 58, 65, 72, 79, 86, 93, 100, 107, 114, 121, 128, 135, 142, 149, 156, 163, 170, 177, 184, 191, 198, 205, 212, 219, 226, 233, 240, 247, 254, 5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82, 89, 96, 103, 110, 117, 124, 131 >>, << 3, 10, 17, 24, 31, 38, 45, 52, 59, 66, 73, 80, 87, 94, 101, 108, 115, 122, 129, 136, 143, 150, 157, 164, 171, 178, 185, 192, 199, 206, 213, 220, 227, 234, 241, 248, 255, 6, 13, 20, 27, 34, 41, 48, 55, 62, 69, 76, 83, 90 >>, << 228, 123, 63, 252, 166, 81, 141, 130, 147, 15, 61, 13, 50, 113, 151, 6, 195, 9, 48, 14, 65, 74, 209, 95, 4, 144, 251, 127, 100, 184, 61, 47, 19, 199, 223, 206, 55, 112, 32, 137, 238, 96, 88, 160, 25, 153, 100, 212, 47, 144, 105, 54, 251, 48, 4, 176, 193, 107, 112, 247, 10, 253, 12, 80 >> >>,
  << "RIPEMD160", << >>, << >>, << 156, 17, 133, 165, 197, 233, 252, 84, 97, 40, 8, 151, 126, 232, 245, 72, 178, 37, 141, 49 >> >>,
  << "RIPEMD160", << >>, << 97 >>, << 11, 220, 157, 45, 37, 107, 62, 233, 218, 174, 52, 123, 230, 244, 220, 131, 90, 70, 127, 254 >> >>,
  << "RIPEMD160", << >>, << 97, 98, 99 >>, << 142, 178, 8, 247, 224, 93, 152, 122, 155, 4, 74, 142, 152, 198, 176, 135, 241, 90, 11, 252 >> >>,
  << "RIPEMD160", << >>, << 109, 101, 115, 115, 97, 103, 101, 32, 100, 105, 103, 101, 115, 116 >>, << 93, 6, 137, 239, 73, 210, 250, 229, 114, 184, 129, 177, 35, 168, 95, 250, 33, 89, 95, 54 >> >>,
  << "RIPEMD160", << >>, << 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122 >>, << 247, 28, 39, 16, 156, 105, 44, 27, 86, 187, 220, 235, 91, 157, 40, 101, 179, 112, 141, 188 >> >>,
  << "RIPEMD160", << >>, << 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 48 >>, << 155, 117, 46, 69, 87, 61, 75, 57, 244, 219, 211, 50, 60, 171, 130, 191, 99, 50, 107, 251 >> >> >>
VARIABLE row
Init == row \in 1..Len(Table)
Next == UNCHANGED row
Spec == Init /\ [][Next]_row
Agrees == LET v == Table[row] IN
  v[4] = (IF v[1] = "RIPEMD160" THEN RIPEMD160(v[3]) ELSE IF v[2] = << >> THEN Digest(v[1], v[3]) ELSE HMAC(v[1], v[2], v[3]))
=============================================================================
