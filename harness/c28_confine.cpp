// C28: transformations read only their input range and write only their output range, whatever surrounds the ranges
// LIBS: -lcrypto
#include "anyobj.h"
#include "PaddingFromName.h"
using namespace any;
// an object given arbitrary surroundings against a twin given exact ranges: same results, surroundings and inputs unchanged
static void confine(pbt::Case& c, int f)
{
	world(c); Factory F = pick(c, f); std::unique_ptr<Any> a(F()), b(F()); c.desc << a->name; c.tag(family_name(f)); c.tag(a->name);
	size_t inits = c.u(1, 3);
	for (size_t i = 0; i < inits; ++i)
	{
		Par p = a->par(c); a->init(p); b->init(p); size_t calls = a->once() ? 1 : c.u(1, 4);
		for (size_t k = 0; k < calls; ++k)
		{
			Call q = a->call(c); Lay l = lay(c); c.desc << " | " << q.text << fmt(" in %zu+%zu out %zu+%zu", l.ib.size(), l.ia.size(), l.ob, l.oa); Lay z; z.fill = (uint8_t)~l.fill;
			Bytes x = a->behave(q, l), y = b->behave(q, z); require_eq(x, y, a->name + ": " + q.text + " with surroundings, against exact ranges"); c.nontrivial(l.ib.size() + l.ia.size() + l.ob + l.oa != 0);
		}
	}
}
PROP(block, 12000, 400000) { confine(c, F_BLOCK); }
PROP(mode, 8000, 300000) { confine(c, F_MODE); }
PROP(aead, 4000, 150000) { confine(c, F_AEAD); }
PROP(stream, 4000, 150000) { confine(c, F_STREAM); }
PROP(mac, 8000, 300000) { confine(c, F_MAC); }
PROP(digest, 8000, 300000) { confine(c, F_DIGEST); }
PROP(kdf, 6000, 200000) { confine(c, F_KDF); }
PROP(drbg, 4000, 150000) { confine(c, F_DRBG); }
