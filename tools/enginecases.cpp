#include "cal.h"
#include <optional>
#include <atomic>
#include <chrono>
#include <random>
#include <fstream>
#include <Eigen/Dense>
#include <bitset>
#include <unordered_map>
#include <unordered_set>
#include <numeric>
#include <array>
#include <tuple>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <functional>
#include <string_view>
#include <variant>
#include <iterator>
#include <future>
using namespace std;
static optional<int> find_it(const vector<int> &v, int x) { auto i = find(v.begin(), v.end(), x); if (i == v.end()) return nullopt; return (int)distance(v.begin(), i); }
extern "C" void h_zz() {
  int k = sx_choose("case", 0, 99); double e = sx_real("e"); sx_assume(e >= 1); sx_assume(e <= 2);
  vector<double> v = {3 * e, e, 2 * e}; vector<int> n = {3, 1, 2, 1}; map<int, double> m = {{1, e}, {2, 2 * e}}; double r = 0;
  cv::Mat A = (cv::Mat_<double>(3, 3) << e, 0, 0, 0, 1, 0, 0, 0, 1), T = (cv::Mat_<double>(3, 1) << e, 2, 3);
  switch (k) {
  case 0: r = accumulate(v.begin(), v.end(), 0.0); sx_prove_eq(r, 6 * e, "0"); break;
  case 1: sort(v.begin(), v.end()); sx_prove_eq(v[0], e, "1"); break;
  case 2: sort(n.begin(), n.end()); n.erase(unique(n.begin(), n.end()), n.end()); sx_prove(n.size() == 3 && n[2] == 3, "2"); break;
  case 3: { auto q = find_it(n, 2); sx_prove(q.has_value() && *q == 2, "3"); break; }
  case 4: { unordered_map<int, double> u; u[3] = e; u.emplace(4, 2 * e); sx_prove(u.size() == 2 && u.count(4), "4"); sx_prove_eq(u.at(3) + u.find(4)->second, 3 * e, "4"); break; }
  case 5: { unordered_set<int> u(n.begin(), n.end()); sx_prove(u.size() == 3 && u.count(2), "5"); break; }
  case 6: { set<pair<int, int>> s; s.insert({1, 2}); s.emplace(0, 5); sx_prove(s.begin()->second == 5, "6"); break; }
  case 7: { vector<double> w; transform(v.begin(), v.end(), back_inserter(w), [&](double x) { return x * 2; }); sx_prove_eq(w[2], 4 * e, "7"); break; }
  case 8: { vector<int> w; copy_if(n.begin(), n.end(), back_inserter(w), [](int x) { return x > 1; }); sx_prove(w.size() == 2, "8"); break; }
  case 9: sx_prove(any_of(n.begin(), n.end(), [](int x) { return x == 2; }) && none_of(n.begin(), n.end(), [](int x) { return x > 5; }) && all_of(n.begin(), n.end(), [](int x) { return x > 0; }), "9"); break;
  case 10: nth_element(v.begin(), v.begin() + 1, v.end()); sx_prove_eq(v[1], 2 * e, "10"); break;
  case 11: { auto q = minmax_element(n.begin(), n.end()); sx_prove(*q.first == 1 && *q.second == 3, "11"); break; }
  case 12: { array<double, 3> a{e, 1, 2}; for (auto x : a) r += x; sx_prove_eq(r, e + 3, "12"); break; }
  case 13: { deque<int> d; d.push_back(1); d.push_front(0); sx_prove(d.front() == 0 && d.size() == 2, "13"); break; }
  case 14: { list<int> d{1, 2, 3}; d.remove(2); sx_prove(d.size() == 2, "14"); break; }
  case 15: { queue<int> q; q.push(1); q.push(2); q.pop(); sx_prove(q.front() == 2, "15"); break; }
  case 16: { priority_queue<pair<double, int>> q; q.push({e, 1}); q.push({3, 2}); sx_prove(q.top().second == 2, "16"); break; }
  case 17: { function<double(double)> f = [&](double x) { return x + e; }; sx_prove_eq(f(1), e + 1, "17"); break; }
  case 18: { string_view s = "abc.def"; sx_prove(s.substr(s.find('.') + 1) == "def", "18"); break; }
  case 19: { auto [a, b] = make_tuple(1, e); sx_prove(a == 1, "19"); sx_prove_eq(b, e, "19"); break; }
  case 20: { stable_sort(n.begin(), n.end(), [](int a, int b) { return a > b; }); sx_prove(n[0] == 3, "20"); break; }
  case 21: { cv::Vec3d a(e, 1, 2); sx_prove_eq(a.dot(a), e * e + 5, "21"); break; }
  case 22: { cv::Matx33d M(1, 0, 0, 0, 1, 0, 0, 0, e); cv::Vec3d q = M * cv::Vec3d(1, 2, 3); sx_prove_eq(q[2], 3 * e, "22"); break; }
  case 23: { cv::Matx44d M = cv::Matx44d::eye(); sx_prove_eq((M * M)(3, 3), 1, "23"); break; }
  case 24: { cv::Point2f a(e, 0), b(0, 0); sx_prove_close(cv::norm(a - b), e, 1e-3, "24"); break; }
  case 25: sx_prove_eq(hypot(e, 0.0), e, "25"); break;
  case 26: { cv::Mat M; cv::hconcat(A, T, M); sx_prove(M.cols == 4, "26"); sx_prove_eq(M.at<double>(0, 3), e, "26"); break; }
  case 27: { cv::Mat M = cv::Mat::eye(4, 4, CV_64F); A.copyTo(M(cv::Rect(0, 0, 3, 3))); T.copyTo(M(cv::Rect(3, 0, 1, 3))); sx_prove_eq(M.at<double>(0, 3), e, "27"); break; }
  case 28: { cv::Mat M = cv::Mat::eye(4, 4, CV_64F); A.copyTo(M.rowRange(0, 3).colRange(0, 3)); sx_prove_eq(M.at<double>(0, 0), e, "28"); break; }
  case 29: { cv::Mat M(A); M = M.clone(); M.at<double>(1, 1) = 5; sx_prove_eq(A.at<double>(1, 1), 1, "29"); break; }
  case 30: { cv::Mat M; cv::vconcat(A, T.t(), M); sx_prove(M.rows == 4, "30"); break; }
  case 31: { double *p = A.ptr<double>(0); sx_prove_eq(p[0], e, "31"); break; }
  case 32: { cv::Mat_<double> M = A; sx_prove_eq(M(0, 0), e, "32"); break; }
  case 33: { stringstream ss; ss << "a" << 3 << "_" << setw(3) << setfill('0') << 7; sx_prove(ss.str() == "a3_007", "33"); break; }
  case 34: { string s = "x" + to_string(12); s.append("y"); s += 'z'; sx_prove(s == "x12yz" && s.rfind("y") == 3 && s.substr(1, 2) == "12", "34"); break; }
  case 35: { std::filesystem::path p = std::filesystem::path("a") / "b.png"; sx_prove(p.filename() == "b.png" && p.extension() == ".png" && p.stem() == "b" && p.parent_path() == "a", "35"); break; }
  case 36: { variant<int, double> q = 3; sx_prove(get<int>(q) == 3, "36"); break; }
  case 37: { shared_ptr<int> p = make_shared<int>(3); weak_ptr<int> w = p; p.reset(); sx_prove(w.expired(), "37"); break; }
  case 38: { auto p = make_unique<vector<int>>(n); sx_prove(p->size() == 4, "38"); break; }
  case 39: { map<pair<int, int>, vector<cv::Mat>> q; q[{1, 2}].push_back(A); auto [it, ok] = q.try_emplace({1, 2}); sx_prove(!ok && it->second.size() == 1, "39"); break; }
  case 40: { auto it = m.lower_bound(2); sx_prove_eq(it->second, 2 * e, "40"); m.insert_or_assign(2, 5.0); m.erase(1); sx_prove(m.size() == 1, "40"); break; }
  case 41: { vector<int> a = {1, 2, 3}, b = {2, 3, 4}, c; set_intersection(a.begin(), a.end(), b.begin(), b.end(), back_inserter(c)); sx_prove(c.size() == 2, "41"); break; }
  case 42: { vector<vector<int>> g(3, vector<int>(2, 7)); g.resize(5); reverse(n.begin(), n.end()); rotate(n.begin(), n.begin() + 1, n.end()); sx_prove(g[2][1] == 7 && n[0] == 2, "42"); break; }
  case 43: sx_prove_eq(inner_product(v.begin(), v.end(), v.begin(), 0.0), 14 * e * e, "43"); break;
  case 44: { partial_sort(n.begin(), n.begin() + 2, n.end()); sx_prove(n[0] == 1 && n[1] == 1, "44"); break; }
  case 45: { auto it = max_element(m.begin(), m.end(), [](auto &a, auto &b) { return a.second < b.second; }); sx_prove(it->first == 2, "45"); break; }
  case 46: sx_prove_eq(clamp(e, 0.0, 5.0) + max({e, 3.0, 1.0}) + fabs(-e) + pow(e, 2), e + 3 + e + e * e, "46"); break;
  case 47: { cv::Mat M = A.mul(A) + A * 2 - A / 1.0; sx_prove_eq(M.at<double>(0, 0), e * e + e, "47"); break; }
  case 48: { cv::Mat z = cv::Mat::zeros(3, 1, CV_64F); z = z + T; z += T; sx_prove_eq(z.at<double>(0), 2 * e, "48"); break; }
  case 49: { cv::Mat z; A.convertTo(z, CV_32F); cv::Mat y = A.row(0).clone().reshape(1, 3); sx_prove_eq(y.at<double>(0), e, "49"); break; }
  case 50: { cv::Affine3d a(cv::Matx33d::eye(), cv::Vec3d(e, 0, 0)); sx_prove_eq((a * cv::Vec3d(1, 1, 1))[0], e + 1, "50"); break; }
  case 51: { mutex mu; lock_guard<mutex> l(mu); scoped_lock s2(*new mutex); r = 1; break; }
  case 52: { auto f = async(launch::deferred, [] { return 4; }); sx_prove(f.get() == 4, "52"); break; }
  case 53: { vector<cv::Point3f> p3 = {{1, 2, 3}}; cv::Mat M(p3); vector<cv::Point2d> pd; pd.emplace_back(e, 2.0); sx_prove(M.rows == 1, "53"); break; }
  case 54: { iter_swap(n.begin(), n.begin() + 1); swap(n[0], n[1]); fill(n.begin(), n.end(), 4); replace(n.begin(), n.end(), 4, 5); sx_prove(count(n.begin(), n.end(), 5) == 4, "54"); break; }
  case 55: { n.erase(remove_if(n.begin(), n.end(), [](int x) { return x == 1; }), n.end()); n.insert(n.begin() + 1, 9); n.shrink_to_fit(); sx_prove(n.size() == 3 && n[1] == 9, "55"); break; }
  case 56: { auto p = partition(n.begin(), n.end(), [](int x) { return x == 1; }); sx_prove(p - n.begin() == 2, "56"); break; }
  case 57: { multimap<int, int> q; q.emplace(1, 2); q.emplace(1, 3); auto g = q.equal_range(1); sx_prove(std::distance(g.first, g.second) == 2, "57"); break; }
  case 58: { vector<bool> b(10, false); b[3] = true; bitset<8> bs(5); sx_prove(b[3] && !b[4] && bs.count() == 2, "58"); break; }
  case 59: { string s; for (auto &x : {"a", "b"}) s += x; istringstream is("12 13"); int a = 0, b = 0; is >> a >> b; sx_prove(s == "ab" && a == 12 && b == 13, "59"); break; }
  case 60: { cv::Mat z; cv::gemm(A, T, 1.0, cv::Mat(), 0, z); sx_prove_eq(z.at<double>(0), e * e, "60"); break; }
  case 61: { cv::Mat z = cv::Mat(3, 3, CV_64F); cv::setIdentity(z); sx_prove_eq(z.at<double>(2, 2), 1, "61"); break; }
  case 62: sx_prove_eq(T.dot(T), e * e + 13, "62"); break;
  case 63: { cv::Mat z = T.cross(T); sx_prove_eq(z.at<double>(0), 0, "63"); break; }
  case 64: { cv::Mat z; z.push_back(A.row(0)); z.push_back(A.row(1)); sx_prove(z.rows == 2, "64"); break; }
  case 65: { sx_prove_close(cv::norm(T, cv::NORM_L2SQR), e * e + 13, 1e-6, "65"); break; }
  case 66: { sx_prove_eq(cv::determinant(A), e, "66"); break; }
  case 67: { cv::Matx33d R; cv::Rodrigues(cv::Vec3d(0, 0, 0), R); sx_prove_eq(R(0, 0), 1, "67"); break; }
  case 68: { cv::Mat R = cv::Mat::eye(3, 3, CV_64F), P; cv::Mat t = T; P = (cv::Mat_<double>(4, 4) << 1, 0, 0, e, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1); sx_prove_eq(P.inv().operator cv::Mat().at<double>(0, 3), -e, "68"); break; }
  case 69: { cv::Mat d = cv::Mat::diag(T); sx_prove_eq(d.at<double>(0, 0), e, "69"); break; }
  case 70: { cv::Mat z(1, 5, CV_64F, cv::Scalar(2)); z.setTo(3); sx_prove_eq(z.at<double>(4), 3, "70"); sx_prove(z.total() == 5, "70"); break; }
  case 71: { cv::Mat z(3, 1, CV_64F); double a[] = {e, 1, 2}; cv::Mat w(3, 1, CV_64F, a); w.copyTo(z); sx_prove_eq(z.at<double>(0), e, "71"); break; }
  case 72: { cv::Point3d a(1, 2, 3), b(e, 0, 0); sx_prove_eq((a - b).dot(a), 14 - e, "72"); sx_prove_eq(a.cross(b).x, 0, "72"); break; }
  case 73: { cv::Scalar s = cv::sum(T); sx_prove_eq(s[0], e + 5, "73"); break; }
  case 74: { double lo, hi; cv::minMaxLoc(A.row(1), &lo, &hi); sx_prove_eq(hi, 1, "74"); break; }
  case 75: { cv::Mat z; cv::multiply(A, A, z); cv::add(A, A, z); cv::scaleAdd(A, 2.0, A, z); sx_prove_eq(z.at<double>(0, 0), 3 * e, "75"); break; }
  case 76: { vector<cv::Point3f> p = {{1, 2, 3}}; vector<cv::Point3f> q; cv::Mat P = (cv::Mat_<double>(3, 4) << 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0); cv::transform(p, q, P); sx_prove_eq(q[0].x, 2, "76"); break; }
  case 77: { vector<cv::Point3f> p = {{1, 2, 3}}; cv::Mat h; cv::convertPointsToHomogeneous(p, h); break; }
  case 78: { atomic<int> a{0}; a++; a.fetch_add(2); sx_prove(a == 3, "78"); break; }
  case 79: { auto t = chrono::steady_clock::now(); (void)t; break; }
  case 80: { ofstream f("x.txt"); f << "a" << 1 << endl; break; }
  case 81: { map<int, int> a = {{1, 1}}, b = {{2, 2}}; a.merge(b); auto nh = a.extract(1); sx_prove(a.size() == 1 && !nh.empty(), "81"); break; }
  case 82: { auto h = [](const pair<int, int> &p) { return (size_t)p.first * 31 + p.second; }; unordered_map<pair<int, int>, int, decltype(h)> u(8, h); u[{1, 2}] = 3; sx_prove(u.size() == 1, "82"); break; }
  case 83: { try { vector<int> z; z.at(3); } catch (const out_of_range &) { r = 1; } sx_prove_eq(r, 1, "83"); break; }
  case 84: { try { throw runtime_error("x"); } catch (const exception &x) { r = 1; } sx_prove_eq(r, 1, "84"); break; }
  case 85: { mt19937 g(42); uniform_int_distribution<int> d(0, 3); int x = d(g); sx_prove(x >= 0 && x <= 3, "85"); break; }
  case 86: { vector<int> q(5); iota(q.begin(), q.end(), 0); shuffle(q.begin(), q.end(), mt19937(1)); sx_prove(q.size() == 5, "86"); break; }
  case 87: { vector<double> q; q.reserve(3); q.assign({e, 1.0}); q.insert(q.end(), v.begin(), v.end()); sx_prove_eq(q.back(), 2 * e, "87"); break; }
  case 88: { static const map<int, string> names = {{1, "a"}}; sx_prove(names.at(1) == "a", "88"); break; }
  case 89: { auto cmp = [&](int a, int b) { return v[a] < v[b]; }; vector<int> q = {0, 1, 2}; sort(q.begin(), q.end(), cmp); sx_prove(q[0] == 1, "89"); break; }
  case 90: { cv::Size s(3, 4); cv::Rect rc(0, 0, 2, 2); sx_prove(s.area() == 12 && rc.contains(cv::Point(1, 1)), "90"); break; }
  case 91: { Eigen::Matrix3d M = Eigen::Matrix3d::Identity(); M(0, 0) = e; Eigen::Vector3d x = M * Eigen::Vector3d(1, 2, 3); sx_prove_eq(x[0], e, "91"); break; }
  case 92: { Eigen::Quaterniond q(1, 0, 0, 0); Eigen::Matrix3d M = q.normalized().toRotationMatrix(); sx_prove_eq(M(0, 0), 1, "92"); break; }
  case 93: { cv::Mat z = cv::abs(-A); sx_prove_eq(z.at<double>(0, 0), e, "93"); break; }
  case 94: { sx_prove(cv::countNonZero(A.row(1)) == 1, "94"); break; }
  case 95: { cv::Mat z = cv::repeat(T, 1, 2); sx_prove(z.cols == 2, "95"); break; }
  case 96: { vector<double> q = cv::Mat_<double>(T); sx_prove_eq(q[0], e, "96"); break; }
  case 97: { T.forEach<double>([](double &x, const int *) { x *= 2; }); sx_prove_eq(T.at<double>(0), 2 * e, "97"); break; }
  case 98: { for (auto it = T.begin<double>(); it != T.end<double>(); ++it) r += *it; sx_prove_eq(r, e + 5, "98"); break; }
  case 99: { cv::Mat z = A(cv::Range(0, 2), cv::Range::all()); z *= 2.0; sx_prove_eq(A.at<double>(0, 0), 2 * e, "99"); break; }
  }
  sx_reach("end");
}
