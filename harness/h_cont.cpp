// P24: the hash table against a map, the stack against a vector.
#include "lib.hpp"
#include <unordered_map>
extern "C" {
#include "squash/hash.h"
#include "squash/stack.h"
}

static std::string value(size_t vs, uint64_t serial) {
	std::string s(vs, 0);
	for (size_t i = 0; i < vs; ++i) s[i] = (char)(img::hash64(serial * 1000 + i / 8) >> (i % 8 * 8));
	return s;
}

static void hash_case(Case &c) {
	static const size_t vss[] = {8, 4, 1, 2, 16, 24, 3, 100, 1000};
	size_t vs = vss[c.draw(9)];
	size_t initial = 1u << c.draw(9);
	long live0 = vf_live();
	sqfs_hash h;
	memset(&h, 0x5a, sizeof h);
	if (c.chance(1, 10)) {
		// not a power of two; or no memory
		bool np = c.chance(1, 2);
		if (!np) vf_fail_at = vf_allocs + 1;
		sqfs_err e = sqfs_hash_init(&h, vs, np ? initial * 3 : initial);
		vf_fail_at = 0;
		CHECK(c, e != SQFS_OK, "sqfs_hash_init takes %s", np ? "a capacity that is no power of two" : "no memory");
		CHECK(c, vf_live() == live0, "a failed sqfs_hash_init leaves memory");
		memset(&h, 0x5a, sizeof h);
		c.label("init refused");
	}
	CHECK(c, sqfs_hash_init(&h, vs, initial) == SQFS_OK, "sqfs_hash_init(%zu, %zu)", vs, initial);
	std::map<uint32_t, std::string> m;
	std::vector<uint32_t> used;           // keys ever used
	unsigned n = 1 + c.sized(c.thorough ? 4000 : 500), style = c.draw(5), removes = c.draw(4), fails = c.chance(1, 2) ? 1 + c.draw(8) : 0;
	unsigned adds = 0, dels = 0, failed = 0;
	auto check_all = [&]() {
		for (auto &x : m) {
			void *p = sqfs_hash_get(&h, x.first);
			CHECK(c, p, "key %u is gone, %zu keys", x.first, m.size());
			CHECK(c, !memcmp(p, x.second.data(), vs), "key %u has another value, %zu keys", x.first, m.size());
		}
		for (uint32_t k : used)
			if (!m.count(k)) CHECK(c, !sqfs_hash_get(&h, k), "key %u is there, but was removed", k);
		c.count(m.size());
	};
	for (unsigned i = 0; i < n; ++i) {
		uint32_t k;
		if (!used.empty() && c.chance(1, 4)) k = used[c.draw(used.size())];
		else {
			switch (style) {
			case 0: k = i; break;
			case 1: k = (uint32_t)c.draw(1ull << 32); break;
			case 2: k = (uint32_t)c.draw(64) << (5 + c.draw(20)); break;   // collide
			case 3: k = 0xffffffffu - (uint32_t)c.draw(600); break;
			default: k = (uint32_t)c.draw(40);
			}
		}
		unsigned what = c.draw(8);
		if (what < 1 + removes) {
			auto it = m.find(k);
			if (it == m.end() && !m.empty() && c.chance(3, 4)) {
				it = m.lower_bound(k);
				if (it == m.end()) it = m.begin();
				k = it->first;
			}
			CHECK(c, sqfs_hash_remove(&h, k) == SQFS_OK, "sqfs_hash_remove(%u)", k);
			if (m.erase(k)) ++dels;
			used.push_back(k);
			CHECK(c, !sqfs_hash_get(&h, k), "key %u is there after its removal", k);
		} else if (what == 7) {
			auto it = m.find(k);
			void *p = sqfs_hash_get(&h, k);
			CHECK(c, !!p == (it != m.end()), "sqfs_hash_get(%u): %s", k, p ? "never added" : "gone");
			if (p) CHECK(c, !memcmp(p, it->second.data(), vs), "key %u has another value", k);
		} else if (!m.count(k)) {
			std::string v = value(vs, i);
			Buf b(vs);
			memcpy(b.p, v.data(), vs);
			bool f = fails && c.draw(8) < fails;
			vf_failed = 0;
			vf_fail_at = f ? vf_allocs + 1 + c.draw(4) : 0;
			sqfs_err e = sqfs_hash_add(&h, k, b.p);
			vf_fail_at = 0;
			used.push_back(k);
			if (e) {
				CHECK(c, vf_failed, "sqfs_hash_add(%u) with %zu keys fails for no reason", k, m.size());
				CHECK(c, !sqfs_hash_get(&h, k), "key %u is there, but adding it failed", k);
				++failed;
				check_all();
			} else {
				m[k] = v;
				++adds;
				void *p = sqfs_hash_get(&h, k);
				CHECK(c, p && !memcmp(p, v.data(), vs), "key %u just added is %s", k, p ? "different" : "not there");
			}
		}
		c.count();
		if (i % 64 == 63) check_all();
	}
	check_all();
	c.note("hash of %zu byte values, capacity %zu, keys of style %u: %u added, %u removed, %u adds failed", vs, initial, style, adds, dels, failed);
	sqfs_hash_destroy(&h);
	CHECK(c, vf_live() == live0, "after sqfs_hash_destroy %ld blocks are left", vf_live() - live0);
	if (adds > initial) c.label("hash grew");
	if (failed) c.label("hash out of memory");
	if (adds >= 2) c.nontrivial();
}

static std::vector<std::string> freed;
static size_t freed_vs;
static void freer(void *v) { freed.push_back(std::string((char *)v, freed_vs)); }

static void stack_case(Case &c) {
	static const size_t vss[] = {8, 4, 1, 16, 40, 3, 200, 3000};
	size_t vs = vss[c.draw(8)];
	size_t initial = c.chance(1, 2) ? 0 : c.sized(300);
	bool fr = !c.chance(1, 4);
	long live0 = vf_live();
	sqfs_stack s;
	memset(&s, 0x5a, sizeof s);
	freed.clear();
	freed_vs = vs;
	if (c.chance(1, 8)) {
		sqfs_stack_init(&s);
		CHECK(c, sqfs_stack_size(&s) == 0, "sqfs_stack_init: size %zu", sqfs_stack_size(&s));
		sqfs_stack_destroy(&s);
		sqfs_stack_destroy(&s);
		CHECK(c, freed.empty() && vf_live() == live0, "destroying an initialised stack does something");
	}
	if (initial && c.chance(1, 8)) {
		vf_fail_at = vf_allocs + 1;
		sqfs_err e = sqfs_stack_create(&s, vs, initial, fr ? freer : nullptr);
		vf_fail_at = 0;
		CHECK(c, e != SQFS_OK, "sqfs_stack_create without memory");
		sqfs_stack_destroy(&s);
		CHECK(c, freed.empty() && vf_live() == live0, "a failed sqfs_stack_create leaves memory");
		c.label("create refused");
	}
	CHECK(c, sqfs_stack_create(&s, vs, initial, fr ? freer : nullptr) == SQFS_OK, "sqfs_stack_create(%zu, %zu)", vs, initial);
	std::vector<std::string> m;
	unsigned n = 1 + c.sized(c.thorough ? 3000 : 500), pops = c.draw(5), fails = c.chance(1, 2) ? 1 + c.draw(8) : 0, pushed = 0, popped = 0, failed = 0;
	auto check_all = [&]() {
		CHECK(c, sqfs_stack_size(&s) == m.size(), "size %zu, %zu were pushed", sqfs_stack_size(&s), m.size());
		for (size_t i = 0; i < m.size(); ++i) {
			void *p = nullptr;
			CHECK(c, sqfs_stack_at(&s, i, &p) == SQFS_OK && p, "no element %zu of %zu", i, m.size());
			CHECK(c, !memcmp(p, m[i].data(), vs), "element %zu of %zu is another", i, m.size());
		}
		c.count(m.size());
	};
	for (unsigned i = 0; i < n; ++i) {
		unsigned what = c.draw(8);
		if (what < pops) {
			freed.clear();
			short r = sqfs_stack_pop(&s);
			CHECK(c, !!r == !m.empty(), "sqfs_stack_pop of %zu elements says %d", m.size(), r);
			if (!m.empty()) {
				if (fr) CHECK(c, freed.size() == 1 && freed[0] == m.back(), "a popped element was freed %zu times%s", freed.size(), freed.size() == 1 ? ", as another" : "");
				m.pop_back();
				++popped;
			} else CHECK(c, freed.empty(), "popping nothing frees something");
		} else if (what == 6) {
			size_t at = c.draw(m.size() + 3);
			if (c.chance(1, 6)) at = SIZE_MAX - c.draw(3);
			void *p = nullptr;
			sqfs_err e = sqfs_stack_at(&s, at, &p);
			CHECK(c, (e == SQFS_OK) == (at < m.size()), "sqfs_stack_at(%zu) of %zu says %d", at, m.size(), (int)e);
			if (!e) CHECK(c, !memcmp(p, m[at].data(), vs), "element %zu of %zu is another", at, m.size());
		} else {
			bool f = fails && c.draw(8) < fails;
			vf_failed = 0;
			vf_fail_at = f ? vf_allocs + 1 : 0;
			void *p = nullptr;
			sqfs_err e = sqfs_stack_push(&s, &p);
			vf_fail_at = 0;
			if (e) {
				CHECK(c, vf_failed, "sqfs_stack_push on %zu elements fails for no reason", m.size());
				++failed;
				check_all();
			} else {
				std::string v = value(vs, i + 7);
				CHECK(c, p, "sqfs_stack_push gives no element");
				memcpy(p, v.data(), vs);
				m.push_back(v);
				++pushed;
			}
		}
		void *p = nullptr;
		sqfs_err e = sqfs_stack_top(&s, &p);
		CHECK(c, (e == SQFS_OK) == !m.empty(), "sqfs_stack_top of %zu elements says %d", m.size(), (int)e);
		if (!e) CHECK(c, !memcmp(p, m.back().data(), vs), "the top of %zu elements is another", m.size());
		CHECK(c, sqfs_stack_size(&s) == m.size(), "size %zu, %zu were pushed", sqfs_stack_size(&s), m.size());
		c.count();
		if (i % 64 == 63) check_all();
	}
	check_all();
	c.note("stack of %zu byte elements, capacity %zu: %u pushed, %u popped, %u pushes failed, %zu left", vs, initial, pushed, popped, failed, m.size());
	freed.clear();
	sqfs_stack_destroy(&s);
	if (fr) {
		CHECK(c, freed.size() == m.size(), "sqfs_stack_destroy freed %zu of %zu elements", freed.size(), m.size());
		std::sort(freed.begin(), freed.end());
		std::sort(m.begin(), m.end());
		CHECK(c, freed == m, "sqfs_stack_destroy freed other elements");
	}
	CHECK(c, vf_live() == live0, "after sqfs_stack_destroy %ld blocks are left", vf_live() - live0);
	freed.clear();
	sqfs_stack_destroy(&s);
	CHECK(c, freed.empty(), "destroying a stack again frees elements again");
	if (pushed > initial + 8) c.label("stack grew");
	if (failed) c.label("stack out of memory");
	if (pushed >= 2) c.nontrivial();
}

static void p24(Case &c) {
	begin(c);
	if (c.draw(2) == 0) {
		c.label("hash");
		hash_case(c);
	} else {
		c.label("stack");
		stack_case(c);
	}
}

int main(int argc, char **argv) {
	return pbt::run_main(argc, argv, {
		{"P24", p24, 30000, 800000, "case = a history of up to 500 operations on a hash table or a stack; non-trivial = at least 2 adds or pushes", nullptr},
	});
}
