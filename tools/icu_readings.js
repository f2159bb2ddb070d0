// Prints, for every Han character that ICU's Korean collation (CLDR "ko",
// dictionary order by reading) files under a Hangul syllable, that syllable.
const base = new Intl.Collator('ko', {sensitivity: 'base'});
const syl = []; for (let c = 0xac00; c <= 0xd7a3; c++) syl.push(String.fromCodePoint(c));
const out = {};
for (let c = 0x3400; c <= 0xfad9; c++) {
  if (!(c <= 0x4dbf || (c >= 0x4e00 && c <= 0x9fff) || c >= 0xf900)) continue;
  const h = String.fromCodePoint(c); let lo = 0, hi = syl.length;
  while (lo < hi) { const m = (lo + hi) >> 1; if (base.compare(syl[m], h) < 0) lo = m + 1; else hi = m; }
  if (lo < syl.length && base.compare(syl[lo], h) === 0) out[c] = syl[lo].codePointAt(0);
}
console.log(JSON.stringify(out));
