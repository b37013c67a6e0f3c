// xorshift-based generator, seeded per case
export class Rng {
  constructor(seed, stream) {
    this.a = (seed * 0x9e3779b1 ^ stream * 0x85ebca6b ^ 0x1234567) >>> 0;
    this.b = (stream * 0xc2b2ae35 ^ seed * 0x27d4eb2f ^ 0x89abcdef) >>> 0;
    this.c = 0x6d2b79f5 ^ seed; this.d = 1;
    for (let i = 0; i < 12; i++) this.u();
  }
  u() { // sfc32
    let t = (this.a + this.b + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  below(n) { return n <= 0 ? 0 : this.u() % n; }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(p) { return this.below(100) < p; }
  pick(l) { return l[this.below(l.length)]; }
  shuffle(l) { for (let i = l.length - 1; i > 0; i--) { const j = this.below(i + 1); [l[i], l[j]] = [l[j], l[i]]; } return l; }
}
