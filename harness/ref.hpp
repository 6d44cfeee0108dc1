// The reference file system: what a path means, from the image model alone.
#pragma once
#include "img.hpp"
#include <cerrno>
#include <string>
#include <algorithm>
#include <vector>

namespace ref {

using img::Image;
using img::Node;

struct Result {
	Node *n = nullptr;                // found
	bool unspec = false;              // the property does not say
	int e1 = 0, e2 = 0;               // acceptable errors when not found
	bool may_loop = false;            // found, but ELOOP is acceptable as well
	int links = 0;                    // followed
	bool err_ok(int e) const { return e && (e == e1 || e == e2); }
};

static inline std::vector<std::string> split(const std::string &p, bool dots = true) {
	std::vector<std::string> v;
	size_t i = 0;
	while (i < p.size()) {
		while (i < p.size() && p[i] == '/') ++i;
		size_t j = p.find('/', i);
		if (j == std::string::npos) j = p.size();
		if (j == i + 1 && p[i] == '.' && !dots && !v.empty() && v.back() == ".") {   // one is as good as many
			i = j;
			continue;
		}
		if (j > i) v.push_back(p.substr(i, j - i));
		i = j;
	}
	return v;
}

struct Step {                         // a name looked up in a directory
	Node *dir;
	std::string name;
	Node *n;                          // NULL: not there
	bool followed;                    // a link gone through
};

struct Resolver {
	std::vector<Step> *trace = nullptr;
	const Image &im;
	std::string alias, alias2;        // root aliases, "" when unset
	int links = 0;
	bool has_alias = false;
	Result res;
	explicit Resolver(const Image &i) : im(i) {}

	enum { MAX = 600 };

	std::string target(const Node *l) const {
		const std::string &t = l->target;
		if (!alias.empty() && t.compare(0, alias.size(), alias) == 0) return t.substr(alias.size() - 1);
		if (!alias2.empty() && t.compare(0, alias2.size(), alias2) == 0) return t.substr(alias2.size() - 1);
		return t;
	}
	// false: no result (res says which)
	bool walk(std::vector<Node *> &st, Node *&out, const std::string &path, bool follow) {
		if (path.empty()) {
			res.unspec = true;
			return false;
		}
		if (path[0] == '/') st.assign(1, im.root);
		std::vector<std::string> c = split(path, false);
		bool slash = path.size() > 0 && path.back() == '/';
		out = st.back();
		std::vector<int> dep(c.size()), lows(c.size());
		std::vector<char> mores(c.size());    // anything but "." after it
		for (size_t i = c.size(); i-- > 1;) {
			int v = c[i] == "." ? 0 : c[i] == ".." ? -1 : 1;
			dep[i - 1] = v + dep[i];
			lows[i - 1] = std::min(0, v + lows[i]);
			mores[i - 1] = mores[i] || c[i] != ".";
		}
		for (size_t i = 0; i < c.size(); ++i) {
			const std::string &x = c[i];
			if (x == ".") continue;
			if (x == "..") {
				if (st.size() == 1) {
					res.unspec = true;    // above the root
					return false;
				}
				st.pop_back();
				out = st.back();
				continue;
			}
			int depth = dep[i], low = lows[i];   // of what follows this component
			bool more = mores[i];
			bool dirlike = slash || i + 1 < c.size();
			bool last = !more || depth == 0;   // lexically the last one
			auto it = st.back()->kids.find(x);
			if (trace) trace->push_back({st.back(), x, it == st.back()->kids.end() ? nullptr : it->second, false});
			if (it == st.back()->kids.end()) {
				if (low < 0) res.unspec = true;
				res.e1 = res.e2 = ENOENT;
				return false;
			}
			Node *n = it->second;
			if (n->type == img::DIR_T) {
				st.push_back(n);
				out = n;
				continue;
			}
			if (low < 0) {
				res.unspec = true;            // ".." over something that is not a real directory
				return false;
			}
			if (n->type == img::LNK_T) {
				if (last && !follow) {
					if (dirlike) {
						res.unspec = true;
						return false;
					}
					out = n;
					return true;
				}
				if (++links > MAX) {
					res.e1 = res.e2 = ELOOP;
					return false;
				}
				Node *t = nullptr;
				if (trace) trace->back().followed = true;
				if (!walk(st, t, target(n), true)) return false;
				if (t->type != img::DIR_T) {
					if (last) {
						if (dirlike) {
							res.unspec = true;
							return false;
						}
						out = t;
						return true;
					}
					res.e1 = ENOTDIR, res.e2 = ENOENT;
					return false;
				}
				out = t;
				continue;
			}
			if (last) {
				if (dirlike) {
					res.unspec = true;
					return false;
				}
				out = n;
				return true;
			}
			res.e1 = ENOTDIR, res.e2 = ENOENT;
			return false;
		}
		return true;
	}
	Result resolve(const std::string &path, bool follow) {
		res = Result();
		links = 0;
		std::vector<Node *> st(1, im.root);
		Node *n = nullptr;
		bool ok = walk(st, n, path, follow);
		res.links = links;
		if (res.unspec) return res;
		if (ok) {
			res.n = n;
			res.may_loop = links > 32;
		} else if (links > 32 && res.e1 != ELOOP) {
			if (res.e1 == res.e2) res.e2 = ELOOP;
			else res.unspec = true;
		}
		return res;
	}
};

}  // namespace ref
