#!/usr/bin/env python3
"""How /verif/cosmwasm-std was produced from the registry's cosmwasm-std 1.5.5
(run once; the result is committed)."""
import re,sys
def sub(p,*prs):
    s=open(p).read()
    for a,b in prs:
        assert a in s,(p,a)
        s=s.replace(a,b)
    # tests are not needed
    i=s.find("\n#[cfg(test)]\nmod tests {")
    if i>0: s=s[:i]+"\n"
    open(p,'w').write(s)
M="src/math/"
ORD='''
impl PartialOrd for %(t)s {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) }
    fn lt(&self, o: &Self) -> bool { self.0 < o.0 }
    fn le(&self, o: &Self) -> bool { self.0 <= o.0 }
    fn gt(&self, o: &Self) -> bool { self.0 > o.0 }
    fn ge(&self, o: &Self) -> bool { self.0 >= o.0 }
}
'''
def ordp(p,t):
    s=open(p).read()
    m=re.search(r'#\[derive\(([^)]*PartialOrd[^)]*)\)\]\n(#\[[^\n]*\n)*pub struct %s\([^\n]*;\n'%t,s)
    assert m,(p,t)
    blk=m.group(0)
    s=s.replace(blk,blk.replace(" PartialOrd,","").replace("PartialOrd, ","")+ORD%{'t':t})
    open(p,'w').write(s)
for f,t in [("uint64","Uint64"),("uint128","Uint128"),("uint256","Uint256"),("uint512","Uint512"),("decimal","Decimal"),("decimal256","Decimal256")]:
    ordp(M+f+".rs",t)
ordp("src/timestamp.rs","Timestamp")
for p,N,w in [(M+"uint256.rs","U256",4),(M+"uint512.rs","U512",8)]:
    s=open(p).read()
    s=s.replace("use bnum::types::%s;"%N,"use symrt::wide::%s;"%N)
    # byte views concretise
    s=s.replace("pub const fn to_be_bytes","pub fn to_be_bytes").replace("pub const fn to_le_bytes","pub fn to_le_bytes")
    s=s.replace("let words = self.0.digits();","let words = self.0.concrete_digits();")
    for f in ["is_zero","pow","strict_add","strict_sub","abs_diff"]:
        s=s.replace("pub const fn %s("%f,"pub fn %s("%f)
    open(p,'w').write(s)
sub(M+"uint256.rs",("""        let bytes = num.to_le_bytes();

        Self::from_le_bytes([
            bytes[0], bytes[1], bytes[2], bytes[3], bytes[4], bytes[5], bytes[6], bytes[7],
            bytes[8], bytes[9], bytes[10], bytes[11], bytes[12], bytes[13], bytes[14], bytes[15],
            0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        ])""","        Self(U256::from_u128(num))"))
s=open(M+"uint512.rs").read()
a=s.index("    pub const fn from_uint256"); b=s.index("    /// Returns a copy of the number as big endian bytes.")
s=s[:a]+"""    pub const fn from_uint256(num: Uint256) -> Self {
        Self(U512::from_u256(num.0))
    }

"""+s[b:]
a=s.index("impl From<Uint256> for Uint512"); b=s.index("impl From<Uint128> for Uint512")
s=s[:a]+"""impl From<Uint256> for Uint512 {
    fn from(val: Uint256) -> Self {
        Self(U512::from_u256(val.0))
    }
}

"""+s[b:]
a=s.index("impl TryFrom<Uint512> for Uint256"); b=s.index("forward_try_from!(Uint512, Uint128)")
s=s[:a]+"""impl TryFrom<Uint512> for Uint256 {
    type Error = ConversionOverflowError;

    fn try_from(value: Uint512) -> Result<Self, Self::Error> {
        value.0.to_u256().map(Uint256).ok_or_else(|| {
            ConversionOverflowError::new("Uint512", "Uint256", value.to_string())
        })
    }
}

"""+s[b:]
open(M+"uint512.rs",'w').write(s)
sub(M+"uint512.rs")
sub(M+"decimal.rs",("""        let mut parts_iter = input.split('.');

        let whole_part""","""        if let Some(v) = symrt::parse_decimal_text(input) {
            return Ok(Decimal(Uint128::new(v)));
        }
        let mut parts_iter = input.split('.');

        let whole_part"""),("""        let whole = (self.0) / Self::DECIMAL_FRACTIONAL;
        let fractional""","""        if let Some(t) = symrt::decimal_text(self.0.u128()) {
            return f.write_str(&t);
        }
        let whole = (self.0) / Self::DECIMAL_FRACTIONAL;
        let fractional"""))
sub(M+"decimal256.rs",("pub const fn is_zero(","pub fn is_zero("))
for f in ["uint64","uint128","decimal256","int64","int128","int256","int512","signed_decimal","signed_decimal_256"]:
    sub(M+f+".rs")
sub("src/timestamp.rs")
for p in [M+"int256.rs",M+"int512.rs"]:
    s=open(p).read()
    for N in "256","512":
        s=re.sub(r"Uint%s\((self\.0\.(abs_diff\(other\.0\)|unsigned_abs\(\)))\)"%N,r"Uint%s(symrt::wide::U%s(*\1.digits()))"%(N,N),s)
    open(p,'w').write(s)
c=open("Cargo.toml").read()
c=c[:c.index("[dev-dependencies.chrono]")]+c[c.index("[features]"):]
c=c.replace("[dependencies.thiserror]","[dependencies.symrt]\npath = \"../symrt\"\n\n[dependencies.thiserror]")
c+="\n[workspace]\n"
open("Cargo.toml",'w').write(c)
