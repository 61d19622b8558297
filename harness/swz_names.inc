// generated by gen_names.py: X(name, count, i0, i1, ...)
#define SWZ_1_1(X) \
	X(x, 1, 0)
#define SWZ_1_2(X) \
	X(xx, 2, 0, 0)
#define SWZ_1_3(X) \
	X(xxx, 3, 0, 0, 0)
#define SWZ_1_4(X) \
	X(xxxx, 4, 0, 0, 0, 0)
#define SWZ_1(X) SWZ_1_1(X) SWZ_1_2(X) SWZ_1_3(X) SWZ_1_4(X)
#define SWZ_2_1(X) \
	X(x, 1, 0) \
	X(y, 1, 1)
#define SWZ_2_2(X) \
	X(xx, 2, 0, 0) \
	X(xy, 2, 0, 1) \
	X(yx, 2, 1, 0) \
	X(yy, 2, 1, 1)
#define SWZ_2_3(X) \
	X(xxx, 3, 0, 0, 0) \
	X(xxy, 3, 0, 0, 1) \
	X(xyx, 3, 0, 1, 0) \
	X(xyy, 3, 0, 1, 1) \
	X(yxx, 3, 1, 0, 0) \
	X(yxy, 3, 1, 0, 1) \
	X(yyx, 3, 1, 1, 0) \
	X(yyy, 3, 1, 1, 1)
#define SWZ_2_4(X) \
	X(xxxx, 4, 0, 0, 0, 0) \
	X(xxxy, 4, 0, 0, 0, 1) \
	X(xxyx, 4, 0, 0, 1, 0) \
	X(xxyy, 4, 0, 0, 1, 1) \
	X(xyxx, 4, 0, 1, 0, 0) \
	X(xyxy, 4, 0, 1, 0, 1) \
	X(xyyx, 4, 0, 1, 1, 0) \
	X(xyyy, 4, 0, 1, 1, 1) \
	X(yxxx, 4, 1, 0, 0, 0) \
	X(yxxy, 4, 1, 0, 0, 1) \
	X(yxyx, 4, 1, 0, 1, 0) \
	X(yxyy, 4, 1, 0, 1, 1) \
	X(yyxx, 4, 1, 1, 0, 0) \
	X(yyxy, 4, 1, 1, 0, 1) \
	X(yyyx, 4, 1, 1, 1, 0) \
	X(yyyy, 4, 1, 1, 1, 1)
#define SWZ_2(X) SWZ_2_1(X) SWZ_2_2(X) SWZ_2_3(X) SWZ_2_4(X)
#define SWZ_3_1(X) \
	X(x, 1, 0) \
	X(y, 1, 1) \
	X(z, 1, 2)
#define SWZ_3_2(X) \
	X(xx, 2, 0, 0) \
	X(xy, 2, 0, 1) \
	X(xz, 2, 0, 2) \
	X(yx, 2, 1, 0) \
	X(yy, 2, 1, 1) \
	X(yz, 2, 1, 2) \
	X(zx, 2, 2, 0) \
	X(zy, 2, 2, 1) \
	X(zz, 2, 2, 2)
#define SWZ_3_3(X) \
	X(xxx, 3, 0, 0, 0) \
	X(xxy, 3, 0, 0, 1) \
	X(xxz, 3, 0, 0, 2) \
	X(xyx, 3, 0, 1, 0) \
	X(xyy, 3, 0, 1, 1) \
	X(xyz, 3, 0, 1, 2) \
	X(xzx, 3, 0, 2, 0) \
	X(xzy, 3, 0, 2, 1) \
	X(xzz, 3, 0, 2, 2) \
	X(yxx, 3, 1, 0, 0) \
	X(yxy, 3, 1, 0, 1) \
	X(yxz, 3, 1, 0, 2) \
	X(yyx, 3, 1, 1, 0) \
	X(yyy, 3, 1, 1, 1) \
	X(yyz, 3, 1, 1, 2) \
	X(yzx, 3, 1, 2, 0) \
	X(yzy, 3, 1, 2, 1) \
	X(yzz, 3, 1, 2, 2) \
	X(zxx, 3, 2, 0, 0) \
	X(zxy, 3, 2, 0, 1) \
	X(zxz, 3, 2, 0, 2) \
	X(zyx, 3, 2, 1, 0) \
	X(zyy, 3, 2, 1, 1) \
	X(zyz, 3, 2, 1, 2) \
	X(zzx, 3, 2, 2, 0) \
	X(zzy, 3, 2, 2, 1) \
	X(zzz, 3, 2, 2, 2)
#define SWZ_3_4(X) \
	X(xxxx, 4, 0, 0, 0, 0) \
	X(xxxy, 4, 0, 0, 0, 1) \
	X(xxxz, 4, 0, 0, 0, 2) \
	X(xxyx, 4, 0, 0, 1, 0) \
	X(xxyy, 4, 0, 0, 1, 1) \
	X(xxyz, 4, 0, 0, 1, 2) \
	X(xxzx, 4, 0, 0, 2, 0) \
	X(xxzy, 4, 0, 0, 2, 1) \
	X(xxzz, 4, 0, 0, 2, 2) \
	X(xyxx, 4, 0, 1, 0, 0) \
	X(xyxy, 4, 0, 1, 0, 1) \
	X(xyxz, 4, 0, 1, 0, 2) \
	X(xyyx, 4, 0, 1, 1, 0) \
	X(xyyy, 4, 0, 1, 1, 1) \
	X(xyyz, 4, 0, 1, 1, 2) \
	X(xyzx, 4, 0, 1, 2, 0) \
	X(xyzy, 4, 0, 1, 2, 1) \
	X(xyzz, 4, 0, 1, 2, 2) \
	X(xzxx, 4, 0, 2, 0, 0) \
	X(xzxy, 4, 0, 2, 0, 1) \
	X(xzxz, 4, 0, 2, 0, 2) \
	X(xzyx, 4, 0, 2, 1, 0) \
	X(xzyy, 4, 0, 2, 1, 1) \
	X(xzyz, 4, 0, 2, 1, 2) \
	X(xzzx, 4, 0, 2, 2, 0) \
	X(xzzy, 4, 0, 2, 2, 1) \
	X(xzzz, 4, 0, 2, 2, 2) \
	X(yxxx, 4, 1, 0, 0, 0) \
	X(yxxy, 4, 1, 0, 0, 1) \
	X(yxxz, 4, 1, 0, 0, 2) \
	X(yxyx, 4, 1, 0, 1, 0) \
	X(yxyy, 4, 1, 0, 1, 1) \
	X(yxyz, 4, 1, 0, 1, 2) \
	X(yxzx, 4, 1, 0, 2, 0) \
	X(yxzy, 4, 1, 0, 2, 1) \
	X(yxzz, 4, 1, 0, 2, 2) \
	X(yyxx, 4, 1, 1, 0, 0) \
	X(yyxy, 4, 1, 1, 0, 1) \
	X(yyxz, 4, 1, 1, 0, 2) \
	X(yyyx, 4, 1, 1, 1, 0) \
	X(yyyy, 4, 1, 1, 1, 1) \
	X(yyyz, 4, 1, 1, 1, 2) \
	X(yyzx, 4, 1, 1, 2, 0) \
	X(yyzy, 4, 1, 1, 2, 1) \
	X(yyzz, 4, 1, 1, 2, 2) \
	X(yzxx, 4, 1, 2, 0, 0) \
	X(yzxy, 4, 1, 2, 0, 1) \
	X(yzxz, 4, 1, 2, 0, 2) \
	X(yzyx, 4, 1, 2, 1, 0) \
	X(yzyy, 4, 1, 2, 1, 1) \
	X(yzyz, 4, 1, 2, 1, 2) \
	X(yzzx, 4, 1, 2, 2, 0) \
	X(yzzy, 4, 1, 2, 2, 1) \
	X(yzzz, 4, 1, 2, 2, 2) \
	X(zxxx, 4, 2, 0, 0, 0) \
	X(zxxy, 4, 2, 0, 0, 1) \
	X(zxxz, 4, 2, 0, 0, 2) \
	X(zxyx, 4, 2, 0, 1, 0) \
	X(zxyy, 4, 2, 0, 1, 1) \
	X(zxyz, 4, 2, 0, 1, 2) \
	X(zxzx, 4, 2, 0, 2, 0) \
	X(zxzy, 4, 2, 0, 2, 1) \
	X(zxzz, 4, 2, 0, 2, 2) \
	X(zyxx, 4, 2, 1, 0, 0) \
	X(zyxy, 4, 2, 1, 0, 1) \
	X(zyxz, 4, 2, 1, 0, 2) \
	X(zyyx, 4, 2, 1, 1, 0) \
	X(zyyy, 4, 2, 1, 1, 1) \
	X(zyyz, 4, 2, 1, 1, 2) \
	X(zyzx, 4, 2, 1, 2, 0) \
	X(zyzy, 4, 2, 1, 2, 1) \
	X(zyzz, 4, 2, 1, 2, 2) \
	X(zzxx, 4, 2, 2, 0, 0) \
	X(zzxy, 4, 2, 2, 0, 1) \
	X(zzxz, 4, 2, 2, 0, 2) \
	X(zzyx, 4, 2, 2, 1, 0) \
	X(zzyy, 4, 2, 2, 1, 1) \
	X(zzyz, 4, 2, 2, 1, 2) \
	X(zzzx, 4, 2, 2, 2, 0) \
	X(zzzy, 4, 2, 2, 2, 1) \
	X(zzzz, 4, 2, 2, 2, 2)
#define SWZ_3(X) SWZ_3_1(X) SWZ_3_2(X) SWZ_3_3(X) SWZ_3_4(X)
#define SWZ_4_1(X) \
	X(x, 1, 0) \
	X(y, 1, 1) \
	X(z, 1, 2) \
	X(w, 1, 3)
#define SWZ_4_2(X) \
	X(xx, 2, 0, 0) \
	X(xy, 2, 0, 1) \
	X(xz, 2, 0, 2) \
	X(xw, 2, 0, 3) \
	X(yx, 2, 1, 0) \
	X(yy, 2, 1, 1) \
	X(yz, 2, 1, 2) \
	X(yw, 2, 1, 3) \
	X(zx, 2, 2, 0) \
	X(zy, 2, 2, 1) \
	X(zz, 2, 2, 2) \
	X(zw, 2, 2, 3) \
	X(wx, 2, 3, 0) \
	X(wy, 2, 3, 1) \
	X(wz, 2, 3, 2) \
	X(ww, 2, 3, 3)
#define SWZ_4_3(X) \
	X(xxx, 3, 0, 0, 0) \
	X(xxy, 3, 0, 0, 1) \
	X(xxz, 3, 0, 0, 2) \
	X(xxw, 3, 0, 0, 3) \
	X(xyx, 3, 0, 1, 0) \
	X(xyy, 3, 0, 1, 1) \
	X(xyz, 3, 0, 1, 2) \
	X(xyw, 3, 0, 1, 3) \
	X(xzx, 3, 0, 2, 0) \
	X(xzy, 3, 0, 2, 1) \
	X(xzz, 3, 0, 2, 2) \
	X(xzw, 3, 0, 2, 3) \
	X(xwx, 3, 0, 3, 0) \
	X(xwy, 3, 0, 3, 1) \
	X(xwz, 3, 0, 3, 2) \
	X(xww, 3, 0, 3, 3) \
	X(yxx, 3, 1, 0, 0) \
	X(yxy, 3, 1, 0, 1) \
	X(yxz, 3, 1, 0, 2) \
	X(yxw, 3, 1, 0, 3) \
	X(yyx, 3, 1, 1, 0) \
	X(yyy, 3, 1, 1, 1) \
	X(yyz, 3, 1, 1, 2) \
	X(yyw, 3, 1, 1, 3) \
	X(yzx, 3, 1, 2, 0) \
	X(yzy, 3, 1, 2, 1) \
	X(yzz, 3, 1, 2, 2) \
	X(yzw, 3, 1, 2, 3) \
	X(ywx, 3, 1, 3, 0) \
	X(ywy, 3, 1, 3, 1) \
	X(ywz, 3, 1, 3, 2) \
	X(yww, 3, 1, 3, 3) \
	X(zxx, 3, 2, 0, 0) \
	X(zxy, 3, 2, 0, 1) \
	X(zxz, 3, 2, 0, 2) \
	X(zxw, 3, 2, 0, 3) \
	X(zyx, 3, 2, 1, 0) \
	X(zyy, 3, 2, 1, 1) \
	X(zyz, 3, 2, 1, 2) \
	X(zyw, 3, 2, 1, 3) \
	X(zzx, 3, 2, 2, 0) \
	X(zzy, 3, 2, 2, 1) \
	X(zzz, 3, 2, 2, 2) \
	X(zzw, 3, 2, 2, 3) \
	X(zwx, 3, 2, 3, 0) \
	X(zwy, 3, 2, 3, 1) \
	X(zwz, 3, 2, 3, 2) \
	X(zww, 3, 2, 3, 3) \
	X(wxx, 3, 3, 0, 0) \
	X(wxy, 3, 3, 0, 1) \
	X(wxz, 3, 3, 0, 2) \
	X(wxw, 3, 3, 0, 3) \
	X(wyx, 3, 3, 1, 0) \
	X(wyy, 3, 3, 1, 1) \
	X(wyz, 3, 3, 1, 2) \
	X(wyw, 3, 3, 1, 3) \
	X(wzx, 3, 3, 2, 0) \
	X(wzy, 3, 3, 2, 1) \
	X(wzz, 3, 3, 2, 2) \
	X(wzw, 3, 3, 2, 3) \
	X(wwx, 3, 3, 3, 0) \
	X(wwy, 3, 3, 3, 1) \
	X(wwz, 3, 3, 3, 2) \
	X(www, 3, 3, 3, 3)
#define SWZ_4_4(X) \
	X(xxxx, 4, 0, 0, 0, 0) \
	X(xxxy, 4, 0, 0, 0, 1) \
	X(xxxz, 4, 0, 0, 0, 2) \
	X(xxxw, 4, 0, 0, 0, 3) \
	X(xxyx, 4, 0, 0, 1, 0) \
	X(xxyy, 4, 0, 0, 1, 1) \
	X(xxyz, 4, 0, 0, 1, 2) \
	X(xxyw, 4, 0, 0, 1, 3) \
	X(xxzx, 4, 0, 0, 2, 0) \
	X(xxzy, 4, 0, 0, 2, 1) \
	X(xxzz, 4, 0, 0, 2, 2) \
	X(xxzw, 4, 0, 0, 2, 3) \
	X(xxwx, 4, 0, 0, 3, 0) \
	X(xxwy, 4, 0, 0, 3, 1) \
	X(xxwz, 4, 0, 0, 3, 2) \
	X(xxww, 4, 0, 0, 3, 3) \
	X(xyxx, 4, 0, 1, 0, 0) \
	X(xyxy, 4, 0, 1, 0, 1) \
	X(xyxz, 4, 0, 1, 0, 2) \
	X(xyxw, 4, 0, 1, 0, 3) \
	X(xyyx, 4, 0, 1, 1, 0) \
	X(xyyy, 4, 0, 1, 1, 1) \
	X(xyyz, 4, 0, 1, 1, 2) \
	X(xyyw, 4, 0, 1, 1, 3) \
	X(xyzx, 4, 0, 1, 2, 0) \
	X(xyzy, 4, 0, 1, 2, 1) \
	X(xyzz, 4, 0, 1, 2, 2) \
	X(xyzw, 4, 0, 1, 2, 3) \
	X(xywx, 4, 0, 1, 3, 0) \
	X(xywy, 4, 0, 1, 3, 1) \
	X(xywz, 4, 0, 1, 3, 2) \
	X(xyww, 4, 0, 1, 3, 3) \
	X(xzxx, 4, 0, 2, 0, 0) \
	X(xzxy, 4, 0, 2, 0, 1) \
	X(xzxz, 4, 0, 2, 0, 2) \
	X(xzxw, 4, 0, 2, 0, 3) \
	X(xzyx, 4, 0, 2, 1, 0) \
	X(xzyy, 4, 0, 2, 1, 1) \
	X(xzyz, 4, 0, 2, 1, 2) \
	X(xzyw, 4, 0, 2, 1, 3) \
	X(xzzx, 4, 0, 2, 2, 0) \
	X(xzzy, 4, 0, 2, 2, 1) \
	X(xzzz, 4, 0, 2, 2, 2) \
	X(xzzw, 4, 0, 2, 2, 3) \
	X(xzwx, 4, 0, 2, 3, 0) \
	X(xzwy, 4, 0, 2, 3, 1) \
	X(xzwz, 4, 0, 2, 3, 2) \
	X(xzww, 4, 0, 2, 3, 3) \
	X(xwxx, 4, 0, 3, 0, 0) \
	X(xwxy, 4, 0, 3, 0, 1) \
	X(xwxz, 4, 0, 3, 0, 2) \
	X(xwxw, 4, 0, 3, 0, 3) \
	X(xwyx, 4, 0, 3, 1, 0) \
	X(xwyy, 4, 0, 3, 1, 1) \
	X(xwyz, 4, 0, 3, 1, 2) \
	X(xwyw, 4, 0, 3, 1, 3) \
	X(xwzx, 4, 0, 3, 2, 0) \
	X(xwzy, 4, 0, 3, 2, 1) \
	X(xwzz, 4, 0, 3, 2, 2) \
	X(xwzw, 4, 0, 3, 2, 3) \
	X(xwwx, 4, 0, 3, 3, 0) \
	X(xwwy, 4, 0, 3, 3, 1) \
	X(xwwz, 4, 0, 3, 3, 2) \
	X(xwww, 4, 0, 3, 3, 3) \
	X(yxxx, 4, 1, 0, 0, 0) \
	X(yxxy, 4, 1, 0, 0, 1) \
	X(yxxz, 4, 1, 0, 0, 2) \
	X(yxxw, 4, 1, 0, 0, 3) \
	X(yxyx, 4, 1, 0, 1, 0) \
	X(yxyy, 4, 1, 0, 1, 1) \
	X(yxyz, 4, 1, 0, 1, 2) \
	X(yxyw, 4, 1, 0, 1, 3) \
	X(yxzx, 4, 1, 0, 2, 0) \
	X(yxzy, 4, 1, 0, 2, 1) \
	X(yxzz, 4, 1, 0, 2, 2) \
	X(yxzw, 4, 1, 0, 2, 3) \
	X(yxwx, 4, 1, 0, 3, 0) \
	X(yxwy, 4, 1, 0, 3, 1) \
	X(yxwz, 4, 1, 0, 3, 2) \
	X(yxww, 4, 1, 0, 3, 3) \
	X(yyxx, 4, 1, 1, 0, 0) \
	X(yyxy, 4, 1, 1, 0, 1) \
	X(yyxz, 4, 1, 1, 0, 2) \
	X(yyxw, 4, 1, 1, 0, 3) \
	X(yyyx, 4, 1, 1, 1, 0) \
	X(yyyy, 4, 1, 1, 1, 1) \
	X(yyyz, 4, 1, 1, 1, 2) \
	X(yyyw, 4, 1, 1, 1, 3) \
	X(yyzx, 4, 1, 1, 2, 0) \
	X(yyzy, 4, 1, 1, 2, 1) \
	X(yyzz, 4, 1, 1, 2, 2) \
	X(yyzw, 4, 1, 1, 2, 3) \
	X(yywx, 4, 1, 1, 3, 0) \
	X(yywy, 4, 1, 1, 3, 1) \
	X(yywz, 4, 1, 1, 3, 2) \
	X(yyww, 4, 1, 1, 3, 3) \
	X(yzxx, 4, 1, 2, 0, 0) \
	X(yzxy, 4, 1, 2, 0, 1) \
	X(yzxz, 4, 1, 2, 0, 2) \
	X(yzxw, 4, 1, 2, 0, 3) \
	X(yzyx, 4, 1, 2, 1, 0) \
	X(yzyy, 4, 1, 2, 1, 1) \
	X(yzyz, 4, 1, 2, 1, 2) \
	X(yzyw, 4, 1, 2, 1, 3) \
	X(yzzx, 4, 1, 2, 2, 0) \
	X(yzzy, 4, 1, 2, 2, 1) \
	X(yzzz, 4, 1, 2, 2, 2) \
	X(yzzw, 4, 1, 2, 2, 3) \
	X(yzwx, 4, 1, 2, 3, 0) \
	X(yzwy, 4, 1, 2, 3, 1) \
	X(yzwz, 4, 1, 2, 3, 2) \
	X(yzww, 4, 1, 2, 3, 3) \
	X(ywxx, 4, 1, 3, 0, 0) \
	X(ywxy, 4, 1, 3, 0, 1) \
	X(ywxz, 4, 1, 3, 0, 2) \
	X(ywxw, 4, 1, 3, 0, 3) \
	X(ywyx, 4, 1, 3, 1, 0) \
	X(ywyy, 4, 1, 3, 1, 1) \
	X(ywyz, 4, 1, 3, 1, 2) \
	X(ywyw, 4, 1, 3, 1, 3) \
	X(ywzx, 4, 1, 3, 2, 0) \
	X(ywzy, 4, 1, 3, 2, 1) \
	X(ywzz, 4, 1, 3, 2, 2) \
	X(ywzw, 4, 1, 3, 2, 3) \
	X(ywwx, 4, 1, 3, 3, 0) \
	X(ywwy, 4, 1, 3, 3, 1) \
	X(ywwz, 4, 1, 3, 3, 2) \
	X(ywww, 4, 1, 3, 3, 3) \
	X(zxxx, 4, 2, 0, 0, 0) \
	X(zxxy, 4, 2, 0, 0, 1) \
	X(zxxz, 4, 2, 0, 0, 2) \
	X(zxxw, 4, 2, 0, 0, 3) \
	X(zxyx, 4, 2, 0, 1, 0) \
	X(zxyy, 4, 2, 0, 1, 1) \
	X(zxyz, 4, 2, 0, 1, 2) \
	X(zxyw, 4, 2, 0, 1, 3) \
	X(zxzx, 4, 2, 0, 2, 0) \
	X(zxzy, 4, 2, 0, 2, 1) \
	X(zxzz, 4, 2, 0, 2, 2) \
	X(zxzw, 4, 2, 0, 2, 3) \
	X(zxwx, 4, 2, 0, 3, 0) \
	X(zxwy, 4, 2, 0, 3, 1) \
	X(zxwz, 4, 2, 0, 3, 2) \
	X(zxww, 4, 2, 0, 3, 3) \
	X(zyxx, 4, 2, 1, 0, 0) \
	X(zyxy, 4, 2, 1, 0, 1) \
	X(zyxz, 4, 2, 1, 0, 2) \
	X(zyxw, 4, 2, 1, 0, 3) \
	X(zyyx, 4, 2, 1, 1, 0) \
	X(zyyy, 4, 2, 1, 1, 1) \
	X(zyyz, 4, 2, 1, 1, 2) \
	X(zyyw, 4, 2, 1, 1, 3) \
	X(zyzx, 4, 2, 1, 2, 0) \
	X(zyzy, 4, 2, 1, 2, 1) \
	X(zyzz, 4, 2, 1, 2, 2) \
	X(zyzw, 4, 2, 1, 2, 3) \
	X(zywx, 4, 2, 1, 3, 0) \
	X(zywy, 4, 2, 1, 3, 1) \
	X(zywz, 4, 2, 1, 3, 2) \
	X(zyww, 4, 2, 1, 3, 3) \
	X(zzxx, 4, 2, 2, 0, 0) \
	X(zzxy, 4, 2, 2, 0, 1) \
	X(zzxz, 4, 2, 2, 0, 2) \
	X(zzxw, 4, 2, 2, 0, 3) \
	X(zzyx, 4, 2, 2, 1, 0) \
	X(zzyy, 4, 2, 2, 1, 1) \
	X(zzyz, 4, 2, 2, 1, 2) \
	X(zzyw, 4, 2, 2, 1, 3) \
	X(zzzx, 4, 2, 2, 2, 0) \
	X(zzzy, 4, 2, 2, 2, 1) \
	X(zzzz, 4, 2, 2, 2, 2) \
	X(zzzw, 4, 2, 2, 2, 3) \
	X(zzwx, 4, 2, 2, 3, 0) \
	X(zzwy, 4, 2, 2, 3, 1) \
	X(zzwz, 4, 2, 2, 3, 2) \
	X(zzww, 4, 2, 2, 3, 3) \
	X(zwxx, 4, 2, 3, 0, 0) \
	X(zwxy, 4, 2, 3, 0, 1) \
	X(zwxz, 4, 2, 3, 0, 2) \
	X(zwxw, 4, 2, 3, 0, 3) \
	X(zwyx, 4, 2, 3, 1, 0) \
	X(zwyy, 4, 2, 3, 1, 1) \
	X(zwyz, 4, 2, 3, 1, 2) \
	X(zwyw, 4, 2, 3, 1, 3) \
	X(zwzx, 4, 2, 3, 2, 0) \
	X(zwzy, 4, 2, 3, 2, 1) \
	X(zwzz, 4, 2, 3, 2, 2) \
	X(zwzw, 4, 2, 3, 2, 3) \
	X(zwwx, 4, 2, 3, 3, 0) \
	X(zwwy, 4, 2, 3, 3, 1) \
	X(zwwz, 4, 2, 3, 3, 2) \
	X(zwww, 4, 2, 3, 3, 3) \
	X(wxxx, 4, 3, 0, 0, 0) \
	X(wxxy, 4, 3, 0, 0, 1) \
	X(wxxz, 4, 3, 0, 0, 2) \
	X(wxxw, 4, 3, 0, 0, 3) \
	X(wxyx, 4, 3, 0, 1, 0) \
	X(wxyy, 4, 3, 0, 1, 1) \
	X(wxyz, 4, 3, 0, 1, 2) \
	X(wxyw, 4, 3, 0, 1, 3) \
	X(wxzx, 4, 3, 0, 2, 0) \
	X(wxzy, 4, 3, 0, 2, 1) \
	X(wxzz, 4, 3, 0, 2, 2) \
	X(wxzw, 4, 3, 0, 2, 3) \
	X(wxwx, 4, 3, 0, 3, 0) \
	X(wxwy, 4, 3, 0, 3, 1) \
	X(wxwz, 4, 3, 0, 3, 2) \
	X(wxww, 4, 3, 0, 3, 3) \
	X(wyxx, 4, 3, 1, 0, 0) \
	X(wyxy, 4, 3, 1, 0, 1) \
	X(wyxz, 4, 3, 1, 0, 2) \
	X(wyxw, 4, 3, 1, 0, 3) \
	X(wyyx, 4, 3, 1, 1, 0) \
	X(wyyy, 4, 3, 1, 1, 1) \
	X(wyyz, 4, 3, 1, 1, 2) \
	X(wyyw, 4, 3, 1, 1, 3) \
	X(wyzx, 4, 3, 1, 2, 0) \
	X(wyzy, 4, 3, 1, 2, 1) \
	X(wyzz, 4, 3, 1, 2, 2) \
	X(wyzw, 4, 3, 1, 2, 3) \
	X(wywx, 4, 3, 1, 3, 0) \
	X(wywy, 4, 3, 1, 3, 1) \
	X(wywz, 4, 3, 1, 3, 2) \
	X(wyww, 4, 3, 1, 3, 3) \
	X(wzxx, 4, 3, 2, 0, 0) \
	X(wzxy, 4, 3, 2, 0, 1) \
	X(wzxz, 4, 3, 2, 0, 2) \
	X(wzxw, 4, 3, 2, 0, 3) \
	X(wzyx, 4, 3, 2, 1, 0) \
	X(wzyy, 4, 3, 2, 1, 1) \
	X(wzyz, 4, 3, 2, 1, 2) \
	X(wzyw, 4, 3, 2, 1, 3) \
	X(wzzx, 4, 3, 2, 2, 0) \
	X(wzzy, 4, 3, 2, 2, 1) \
	X(wzzz, 4, 3, 2, 2, 2) \
	X(wzzw, 4, 3, 2, 2, 3) \
	X(wzwx, 4, 3, 2, 3, 0) \
	X(wzwy, 4, 3, 2, 3, 1) \
	X(wzwz, 4, 3, 2, 3, 2) \
	X(wzww, 4, 3, 2, 3, 3) \
	X(wwxx, 4, 3, 3, 0, 0) \
	X(wwxy, 4, 3, 3, 0, 1) \
	X(wwxz, 4, 3, 3, 0, 2) \
	X(wwxw, 4, 3, 3, 0, 3) \
	X(wwyx, 4, 3, 3, 1, 0) \
	X(wwyy, 4, 3, 3, 1, 1) \
	X(wwyz, 4, 3, 3, 1, 2) \
	X(wwyw, 4, 3, 3, 1, 3) \
	X(wwzx, 4, 3, 3, 2, 0) \
	X(wwzy, 4, 3, 3, 2, 1) \
	X(wwzz, 4, 3, 3, 2, 2) \
	X(wwzw, 4, 3, 3, 2, 3) \
	X(wwwx, 4, 3, 3, 3, 0) \
	X(wwwy, 4, 3, 3, 3, 1) \
	X(wwwz, 4, 3, 3, 3, 2) \
	X(wwww, 4, 3, 3, 3, 3)
#define SWZ_4(X) SWZ_4_1(X) SWZ_4_2(X) SWZ_4_3(X) SWZ_4_4(X)
