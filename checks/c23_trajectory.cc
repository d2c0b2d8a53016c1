// C23: trajectories are read from their text, queued and played point by point.
#include <sot/core/joint-trajectory-entity.hh>
#include <sot/core/trajectory.hh>

#include "inputs.hh"
static std::string text(const std::vector<double> &v) {
  std::ostringstream os;
  os << "(";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i];
  os << ")";
  return os.str();
}
struct Number {
  const char *text;
  double value;
};
static const Number N[] = {{"1.5", 1.5}, {"-0.25", -0.25}, {"3.", 3}, {"12", 12}, {"-7", -7}, {"1e-3", 1e-3}, {"-2.5e+2", -250}, {"0.0", 0}, {"4.0E1", 40}};
static const int NN = sizeof(N) / sizeof(N[0]);
struct Written {
  std::string text;
  Trajectory want;
};
// a list of n numbers that starts with the k-th one
static std::vector<double> list(std::string &s, int n, int k) {
  std::vector<double> r;
  s += "(";
  for (int i = 0; i < n; ++i) {
    const Number &x = N[(k + i * 2) % NN];
    s += (i ? "," : "");
    s += x.text;
    r.push_back(x.value);
  }
  s += ")";
  return r;
}
static Written written(int seq, int stamp, int frame, int names, const std::vector<std::vector<int> > &points, int first) {
  static const char *frames[] = {"", "base_link", "Odom3"}, *joints[] = {"left_hip_0", "J1", "a"};
  static const char *stamps[][2] = {{"0.0", "0.0"}, {"12.0", "345.0"}, {"7.", "999999."}, {"3", "4"}};
  static const unsigned long sv[][2] = {{0, 0}, {12, 345}, {7, 999999}, {3, 4}};
  Written w;
  std::ostringstream os;
  os << "(" << seq << ",(" << stamps[stamp][0] << "," << stamps[stamp][1] << ")," << frames[frame] << "),(";
  w.want.header_.seq_ = (unsigned)seq;
  w.want.header_.stamp_ = timestamp(sv[stamp][0], sv[stamp][1]);
  w.want.header_.frame_id_ = frames[frame];
  for (int i = 0; i < names; ++i) {
    os << (i ? "," : "") << joints[i];
    w.want.joint_names_.push_back(joints[i]);
  }
  os << "),(";
  for (size_t i = 0; i < points.size(); ++i) {
    JointTrajectoryPoint p;
    std::string s = i ? ",(" : "(";
    p.positions_ = list(s, points[i][0], first);
    s += ",";
    p.velocities_ = list(s, points[i][1], first + 1);
    s += ",";
    p.accelerations_ = list(s, points[i][2], first + 3);
    s += ",";
    p.efforts_ = list(s, points[i][3], first + 5);
    os << s << ")";
    w.want.points_.push_back(p);
  }
  os << ")";
  w.text = os.str();
  return w;
}
// compared here and not by the comparison under test
static bool sameStamp(const timestamp &a, unsigned long s, unsigned long ns) { return a.secs_ == s && a.nsecs_ == ns; }
static bool sameStamp(const timestamp &a, const timestamp &b) { return sameStamp(a, b.secs_, b.nsecs_); }
static void same(mc::Ctx &c, const Trajectory &g, const Trajectory &w) {
  MC_EXPECT(c, g.header_.seq_ == w.header_.seq_, "seq", "the number is " << g.header_.seq_ << " instead of " << w.header_.seq_);
  MC_EXPECT(c, sameStamp(g.header_.stamp_, w.header_.stamp_), "stamp",
            "the stamp is " << g.header_.stamp_.secs_ << " " << g.header_.stamp_.nsecs_ << " instead of " << w.header_.stamp_.secs_ << " " << w.header_.stamp_.nsecs_);
  MC_EXPECT(c, g.header_.frame_id_ == w.header_.frame_id_, "frame", "the frame is " << g.header_.frame_id_ << " instead of " << w.header_.frame_id_);
  MC_EXPECT(c, g.joint_names_ == w.joint_names_, "names", g.joint_names_.size() << " names of joints instead of " << w.joint_names_.size() << ", or other ones");
  MC_EXPECT(c, g.points_.size() == w.points_.size(), "points", g.points_.size() << " points instead of " << w.points_.size());
  MC_EXPECT(c, g.time_from_start_ == 0, "time", "the time from start is " << g.time_from_start_);
  for (size_t i = 0; i < w.points_.size(); ++i) {
    const JointTrajectoryPoint &a = g.points_[i], &b = w.points_[i];
    const std::vector<double> *x[] = {&a.positions_, &a.velocities_, &a.accelerations_, &a.efforts_}, *y[] = {&b.positions_, &b.velocities_, &b.accelerations_, &b.efforts_};
    for (int k = 0; k < 4; ++k) MC_EXPECT(c, *x[k] == *y[k], "values", "list " << k << " of point " << i << " is " << text(*x[k]) << " instead of " << text(*y[k]));
  }
}
static Written choose(mc::Ctx &c, bool small) {
  std::vector<std::vector<int> > p;
  int n = c.choose(small ? 2 : 3, "points");
  static const int shapes[][4] = {{1, 0, 0, 0}, {2, 2, 2, 2}, {3, 1, 0, 2}, {0, 0, 0, 0}, {6, 0, 1, 0}, {0, 3, 0, 1}};
  for (int i = 0; i < n; ++i) {
    int k = small ? 2 : c.choose(6, "sizes");
    p.push_back(std::vector<int>(shapes[k], shapes[k] + 4));
  }
  static const int seqs[] = {0, 1, 4200};
  int seq = seqs[c.choose(small ? 1 : 3, "number")], stamp = c.choose(small ? 2 : 4, "stamp"), frame = c.choose(small ? 1 : 3, "frame");
  int names = 1 + c.choose(small ? 2 : 3, "names");
  int first = n && !small ? c.choose(NN, "values") : 0;
  return written(seq, stamp, frame, names, p, first);
}
static void texts(mc::Ctx &c) {
  Written w = choose(c, false);
  MC_OP(c, w.text);
  Trajectory t;
  std::istringstream is(w.text);
  t.deserialize(is);
  c.step();
  same(c, t, w.want);
  Trajectory copy(t), other;
  other = t;
  same(c, copy, w.want);
  same(c, other, w.want);
  c.observe(mc::hstr(w.text));
}
// texts with a part missing, doubled or replaced; then a good one
static void broken(mc::Ctx &c) {
  Written w = choose(c, true);
  std::string s = w.text;
  int n = (int)s.size();
  int k = c.choose(n + 1, "where");
  switch (c.choose(5, "damage")) {
    case 0: s = s.substr(0, (size_t)k); break;
    case 1: s = s.substr((size_t)k); break;
    case 2: s.erase((size_t)k, 1); break;
    case 3: s.insert((size_t)k, "("); break;
    default: s.insert((size_t)k, c.flag("letter") ? "x" : ")");
  }
  MC_OP(c, s);
  Trajectory t;
  for (int i = 0; i < 2; ++i) {
    c.step();
    std::istringstream is(i ? w.text : s);
    try {
      t.deserialize(is);
    } catch (std::exception &e) {
      MC_EXPECT(c, !i, "refused", "a good text is refused: " << e.what());
    }
    MC_EXPECT(c, t.points_.size() <= is.str().size() && t.joint_names_.size() <= is.str().size(), "size", "more points or names than letters");
    c.observe(t.points_.size() * 100 + t.joint_names_.size());
  }
  same(c, t, w.want);
}

/* --- playing ------------------------------------------------------------ */
static JointTrajectoryPoint point(std::initializer_list<double> l) {
  JointTrajectoryPoint p;
  p.positions_ = l;
  return p;
}
static Trajectory traj(unsigned seq, unsigned long s, unsigned long ns, std::initializer_list<JointTrajectoryPoint> l) {
  Trajectory t;
  t.header_.seq_ = seq;
  t.header_.stamp_ = timestamp(s, ns);
  t.points_ = l;
  return t;
}
static void playing(mc::Ctx &c) {
  const std::vector<Trajectory> T = {
      traj(0, 0, 0, {}),
      traj(3, 1, 0, {point({1, 2, 0.5, -0.5, 0.3, 7, 8}), point({1.5, 2.5, 1, 2, -0.7, 9, 10})}),
      traj(4, 1, 5, {point({3, 0.1, 0.2, 2.9, 5, 6})}),
      traj(5, 2, 5, {}),
      traj(6, 9, 0, {point({1, 2, 3}), point({0.3, 0.4, -1.1, 11, 12})})};
  std::unique_ptr<SotJointTrajectoryEntity> e;
  {
    // what the entity does not initialize is not zero by chance
    e.reset(new SotJointTrajectoryEntity(mc::uniq("trajectory")));
  }
  size_t now = 0;
  bool fails = false;
  SignalTimeDependent<Trajectory, int> in("in");
  in.setDependencyType(TimeDependency<int>::ALWAYS_READY);
  in.setFunction([&](Trajectory &r, int) -> Trajectory & {
    if (fails) throw ExceptionSignal(ExceptionSignal::GENERIC, "no input");
    return r = T[now];
  });
  e->trajectorySIN.plug(&in);
  // the stream of what is to be played
  struct Item {
    const JointTrajectoryPoint *p;
    unsigned seq;
  };
  std::vector<Item> stream;
  long cursor = -1;
  timestamp back;
  auto append = [&](const Trajectory &t) {
    for (auto &p : t.points_) stream.push_back({&p, t.header_.seq_});
    if (t.points_.empty()) stream.push_back({NULL, 0});
    back = t.header_.stamp_;
  };
  Vector pos, com, zmp;
  MH waist;
  waist.setIdentity();
  unsigned seq = 0;
  auto play = [&]() {
    if (cursor + 1 < (long)stream.size()) ++cursor;
    const Item &i = stream[(size_t)cursor];
    if (!i.p) return;
    seq = i.seq;
    const std::vector<double> &x = i.p->positions_;
    size_t n = x.size();
    if (n < 5) return;
    pos = Eigen::Map<const Vector>(x.data(), (long)n - 5);
    com = Eigen::Map<const Vector>(x.data() + n - 5, 3);
    zmp = mc::vec({x[n - 2], x[n - 1], -0.055});
    double a = com(2);
    waist.matrix() << std::cos(a), -std::sin(a), 0, com(0), std::sin(a), std::cos(a), 0, com(1), 0, 0, 1, 0.65, 0, 0, 0, 1;
  };
  Trajectory init;
  if (c.flag("initial trajectory")) {
    init = traj(8, 0, 0, {point({-1, -2, 1, 2, 0, 3, 4})});
    MC_OP(c, "initial trajectory");
    mc::run(*e, "initTraj", {mc::Value(std::string("(8,(0.0,0.0),base),(J1,J2),(((-1.0,-2.0,1.0,2.0,0.0,3.0,4.0),(),(),()))"))});
    append(init);
    play();
  }
  int order = c.choose(4, "order of readings");
  int t = 0;
  const int L = (c.thorough ? 7 : 5) + (order == 0);
  for (int i = 0; i < L; ++i) {
    c.step();
    int w = c.choose((int)T.size() + 2, "input");
    fails = w == (int)T.size() + 1;
    if (w && !fails) now = (size_t)w - 1;
    t += 1 + (order == 3);
    if (!fails) {
      const Trajectory &x = T[now];
      bool zero = sameStamp(x.header_.stamp_, 0, 0);
      if (stream.empty() || (!zero && !sameStamp(back, x.header_.stamp_))) append(x);
      play();
    }
    MC_OP(c, (fails ? std::string("failing") : "trajectory " + std::to_string(now)) << " at " << t);
    for (int k = 0; k < 6; ++k) {
      static const int orders[][6] = {{0, 1, 2, 3, 4, 0}, {3, 4, 2, 1, 0, 3}, {4, 4, 0, 3, 1, 2}, {2, 2, 3, 0, 1, 4}};
      int o = orders[order][k];
      bool th = false;
      Matrix got, want;
      try {
        if (o == 0) got = e->positionSOUT(t), want = pos;
        if (o == 1) got = e->comSOUT(t), want = com;
        if (o == 2) got = e->zmpSOUT(t), want = zmp;
        if (o == 3) got = e->waistSOUT(t).matrix(), want = waist.matrix();
        if (o == 4) got = flat(e->seqIdSOUT(t)), want = flat(seq);
      } catch (std::exception &x) {
        th = true;
      }
      static const char *names[] = {"position", "com", "zmp", "waist", "seqid"};
      if (fails && k) continue;  // after a failure at this time
      MC_EXPECT(c, th == fails, "refused", names[o] << (th ? " is refused" : " is given and the trajectory is not"));
      if (th) continue;
      if (!want.size() && o < 3) {
        MC_EXPECT(c, !got.size(), names[o], names[o] << " is " << mc::show(got) << " and nothing was played");
        continue;
      }
      MC_EXPECT(c, mc::near(got, want), names[o], names[o] << " is " << mc::show(got) << " instead of " << mc::show(want));
      c.observe(mc::hmat(got));
    }
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"texts", texts, "texts of trajectories: headers, names, sizes and formats of numbers", 2});
  S.push_back({"broken", broken, "texts with every part missing, doubled or replaced", 1});
  S.push_back({"playing", playing, "histories of trajectories received, failures and orders of readings", 3});
  return mc::main(argc, argv, "C23", S);
}
