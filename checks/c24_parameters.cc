// C24: what is told to a parameter server is what is read back from the robot,
// and configurations keep their meaning between the two conventions.
#include <sot/core/exception-tools.hh>
#include <sot/core/parameter-server.hh>
#include <sot/core/robot-utils.hh>

#include "inputs.hh"
typedef Eigen::VectorXd VX;

/* --- conversions --------------------------------------------------------- */
static M3 ofQuaternion(const VX &q) {  // x y z w
  double x = q(0), y = q(1), z = q(2), w = q(3);
  M3 R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y),
      2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}
static M3 ofRpy(double r, double p, double y) {
  M3 X, Y, Z;
  X << 1, 0, 0, 0, cos(r), -sin(r), 0, sin(r), cos(r);
  Y << cos(p), 0, sin(p), 0, 1, 0, -sin(p), 0, cos(p);
  Z << cos(y), -sin(y), 0, sin(y), cos(y), 0, 0, 0, 1;
  return Z * Y * X;
}
static const std::vector<std::vector<Index> > &maps() {
  static std::vector<std::vector<Index> > m;
  if (m.empty())
    for (Index n = 1; n <= 4; ++n) {
      std::vector<Index> p;
      for (Index i = 0; i < n; ++i) p.push_back(i);
      do m.push_back(p);
      while (std::next_permutation(p.begin(), p.end()));
    }
  return m;
}
static void setMap(mc::Ctx &c, RobotUtil &r, const std::vector<Index> &m) {
  if (c.flag("as a vector")) {
    Vector v(m.size());
    for (size_t i = 0; i < m.size(); ++i) v((int)i) = (double)m[i];
    r.set_urdf_to_sot(v);
  } else
    r.set_urdf_to_sot(m);
}
static VX wave(int n, double a) {
  VX v(n);
  for (int i = 0; i < n; ++i) v(i) = a * (i + 1) + sin(3. * a * i);
  return v;
}
static void joints(mc::Ctx &c) {
  RobotUtil r;
  int changes = 1 + c.flag("changed later");
  std::vector<Index> m;
  for (int i = 0; i < changes; ++i) {
    m = maps()[(size_t)c.choose((int)maps().size(), "map")];
    setMap(c, r, m);
    c.step();
  }
  int n = (int)m.size();
  MC_EXPECT(c, r.m_nbJoints == m.size() && r.m_dgv_urdf_to_sot.size() == n, "size", r.m_nbJoints << " joints instead of " << n);
  for (int i = 0; i < n; ++i)
    MC_EXPECT(c, r.m_urdf_to_sot[(size_t)i] == m[(size_t)i] && r.m_dgv_urdf_to_sot(i) == (double)m[(size_t)i], "map", "joint " << i << " is mapped to " << r.m_urdf_to_sot[(size_t)i]);
  VX u = wave(n, 0.3), s(n), back(n);
  MC_EXPECT(c, r.joints_urdf_to_sot(u, s), "refused", "joints_urdf_to_sot");
  for (int i = 0; i < n; ++i) MC_EXPECT(c, s(m[(size_t)i]) == u(i), "joints", "joint " << i << " went to " << sh(Vector(s)) << " from " << sh(Vector(u)));
  MC_EXPECT(c, r.joints_sot_to_urdf(s, back) && back == u, "inverse", "joints come back as " << sh(Vector(back)));
  // the whole configuration and velocity of the robot
  VX qu(n + 7), qs(n + 6), qb(n + 7), vu = wave(n + 6, 0.7), vs(n + 6), vb(n + 6);
  qu << 1, -2, 3, 0.5, -0.5, 0.5, 0.5, u;
  MC_EXPECT(c, r.config_urdf_to_sot(qu, qs) && r.config_sot_to_urdf(qs, qb), "refused", "config");
  MC_EXPECT(c, qs.head(3) == qu.head(3) && qs.tail(n) == s, "config", "the configuration is " << sh(Vector(qs)) << " for " << sh(Vector(qu)));
  MC_EXPECT(c, qb.head(3) == qu.head(3) && qb.tail(n) == u, "inverse", "the configuration comes back as " << sh(Vector(qb)));
  MC_EXPECT(c, r.velocity_urdf_to_sot(qu, vu, vs), "refused", "velocity");
  M3 R = ofQuaternion(qu.segment(3, 4));
  MC_EXPECT(c, mc::near(Vector(vs.head(3)), Vector(R * vu.head(3))) && mc::near(Vector(vs.segment(3, 3)), Vector(R * vu.segment(3, 3))), "velocity",
            "the velocity is " << sh(Vector(vs)) << " for " << sh(Vector(vu)));
  for (int i = 0; i < n; ++i) MC_EXPECT(c, vs(6 + m[(size_t)i]) == vu(6 + i), "velocity", "velocity of joint " << i);
  MC_EXPECT(c, r.velocity_sot_to_urdf(qu, vs, vb) && mc::near(Vector(vb), Vector(vu)), "inverse", "the velocity comes back as " << sh(Vector(vb)));
  c.observe(mc::hmat(s));
}
static void free_flyer(mc::Ctx &c) {
  static const double H = M_PI / 2;
  // a quaternion: rotations about the axes in turn, next to and at the lock too
  static const double pitch[] = {0, 0.4, -1.2, H, -H, H - 5e-4, -H + 5e-4, H - 2e-3, -H + 2e-3, H + 5e-4};
  static const double other[] = {0, 0.3, -0.9, H, -H, 2.5, -3.1, M_PI};
  double p = pitch[c.choose(10, "pitch")], r = other[c.choose(8, "roll")], y = other[c.choose(8, "yaw")];
  Eigen::Quaterniond q = Eigen::AngleAxisd(y, V3::UnitZ()) * Eigen::AngleAxisd(p, V3::UnitY()) * Eigen::AngleAxisd(r, V3::UnitX());
  if (c.flag("opposite")) q.coeffs() = -q.coeffs();
  VX u(7), s(6), b(7);
  u << 0.1, -2, 3e3, q.x(), q.y(), q.z(), q.w();
  RobotUtil robot;
  MC_EXPECT(c, robot.base_urdf_to_sot(u, s), "refused", "base_urdf_to_sot");
  c.step();
  M3 R = ofQuaternion(u.tail(4));
  double tol = fabs(fabs(p) - H) < 1.1e-3 ? 2e-3 : 1e-9;
  MC_EXPECT(c, s.head(3) == u.head(3), "position", "the position is " << sh(Vector(s)));
  MC_EXPECT(c, mc::near(Matrix(ofRpy(s(3), s(4), s(5))), Matrix(R), tol), "rotation", "roll, pitch, yaw are " << sh(Vector(s.tail(3))) << " for " << sh(Vector(u.tail(4))));
  VX s2(6);
  MC_EXPECT(c, base_se3_to_sot(u.head(3), R, s2) && mc::near(Matrix(ofRpy(s2(3), s2(4), s2(5))), Matrix(R), tol) && s2.head(3) == u.head(3), "se3", "base_se3_to_sot gives " << sh(Vector(s2)));
  MC_EXPECT(c, robot.base_sot_to_urdf(s, b), "refused", "base_sot_to_urdf");
  MC_EXPECT(c, b.head(3) == u.head(3) && mc::near(Matrix(ofQuaternion(b.tail(4))), Matrix(ofRpy(s(3), s(4), s(5)))) && mc::near(b.tail(4).norm(), 1.), "inverse",
            "the free flyer comes back as " << sh(Vector(b)) << " instead of " << sh(Vector(u)));
  // and angles taken as they are, from outside of the range too
  s << 1, 2, 3, r + 2 * M_PI, p, y - 4 * M_PI;
  robot.base_sot_to_urdf(s, b);
  MC_EXPECT(c, mc::near(Matrix(ofQuaternion(b.tail(4))), Matrix(ofRpy(r, p, y))), "inverse", "turned angles give " << sh(Vector(b)));
  c.observe(mc::hmat(s));
}
static void bad_maps(mc::Ctx &c) {
  std::unique_ptr<RobotUtil> robot(new RobotUtil);  // on the heap: new memory is filled by the sanitizer
  RobotUtil &r = *robot;
  VX none(0), q(7), v(6), out(6);
  q << 0, 0, 0, 0, 0, 0, 1;
  v.setZero();
  MC_EXPECT(c, !r.joints_urdf_to_sot(none, none) && !r.joints_sot_to_urdf(none, none) && !r.velocity_urdf_to_sot(q, v, out) && !r.velocity_sot_to_urdf(q, v, out), "unset",
            "joints are converted before they are mapped");
  std::vector<Index> kept;
  if (c.flag("mapped before")) {
    kept = maps()[(size_t)c.choose(9, "map")];
    setMap(c, r, kept);
  }
  int n = 1 + c.choose(3, "joints");
  static const Index values[] = {0, 1, 2, 3, -1, 7, 1 << 30};
  std::vector<Index> m;
  bool bad = false;
  for (int i = 0; i < n; ++i) {
    m.push_back(values[c.choose(7, "index")]);
    bad = bad || m.back() < 0 || m.back() >= n;
  }
  bool th = false;
  c.step();
  try {
    setMap(c, r, m);
  } catch (std::exception &) {
    th = true;
  }
  MC_EXPECT(c, th == bad, "refused", (th ? "a good map is refused" : "a map outside of the robot is accepted"));
  std::vector<Index> now = bad ? kept : m;
  MC_EXPECT(c, r.m_urdf_to_sot == now && r.m_nbJoints == now.size(), "kept", "the map has " << r.m_urdf_to_sot.size() << " joints instead of " << now.size());
  if (now.size()) {
    VX u = wave((int)now.size(), 0.3), s = VX::Zero((int)now.size());
    r.joints_urdf_to_sot(u, s);
    r.joints_sot_to_urdf(s, u);
  }
  c.observe(th);
}

/* --- names, ids, limits ---------------------------------------------------- */
struct Robot {
  std::map<std::string, Index> joints, forces;
  std::map<Index, std::pair<double, double> > limits;
  std::map<Index, std::pair<Vector, Vector> > flimits;
  std::map<std::string, std::string> frames;
  Vector sole, sensor;
  Index special[4] = {-1, -1, -1, -1};
  std::vector<Index> map;
};
static Vector six(double a) {
  Vector v(6);
  for (int i = 0; i < 6; ++i) v(i) = a + i;
  return v;
}
static void look(mc::Ctx &c, RobotUtil &r, const Robot &m) {
  static const char *jn[] = {"j", "k", "l", ""}, *fn[] = {"lf", "rf", "lh", "rh", "other", ""};
  for (const char *n : jn) {
    Index want = m.joints.count(n) ? m.joints.at(n) : -1, got = r.get_id_from_name(n);
    MC_EXPECT(c, got == want, "joint-id", "joint " << n << " has id " << got << " instead of " << want);
  }
  for (const char *n : fn) {
    Index want = m.forces.count(n) ? m.forces.at(n) : -1, got = r.m_force_util.get_id_from_name(n);
    MC_EXPECT(c, got == want, "force-id", "force " << n << " has id " << got << " instead of " << want);
  }
  for (Index i = -1; i < 4; ++i) {
    bool any = false, fany = false;
    for (auto &p : m.joints) any = any || p.second == i;
    for (auto &p : m.forces) fany = fany || p.second == i;
    std::string g = r.get_name_from_id(i), f = r.m_force_util.get_name_from_id(i);
    MC_EXPECT(c, any ? m.joints.count(g) && m.joints.at(g) == i : g == "Joint name not found", "joint-name", "the name of joint " << i << " is " << g);
    MC_EXPECT(c, fany ? m.forces.count(f) && m.forces.at(f) == i : f == "Force name not found", "force-name", "the name of force " << i << " is " << f);
    MC_EXPECT(c, r.m_force_util.cp_get_name_from_id(i) == f, "force-name", "cp_get_name_from_id");
    JointLimits l = r.get_joint_limits_from_id(i), l2 = r.cp_get_joint_limits_from_id(i);
    double lo = m.limits.count(i) ? m.limits.at(i).first : 0, up = m.limits.count(i) ? m.limits.at(i).second : 0;
    MC_EXPECT(c, l.lower == lo && l.upper == up && l2.lower == lo && l2.upper == up, "joint-limits", "limits of joint " << i << " are " << l.lower << " " << l.upper << " instead of " << lo << " " << up);
    ForceLimits fl = r.m_force_util.get_limits_from_id(i), fl2 = r.m_force_util.cp_get_limits_from_id(i);
    Vector flo = m.flimits.count(i) ? m.flimits.at(i).first : Vector(Vector::Zero(6)), fup = m.flimits.count(i) ? m.flimits.at(i).second : Vector(Vector::Zero(6));
    MC_EXPECT(c, mc::near(fl.lower, flo) && mc::near(fl.upper, fup) && mc::near(fl2.lower, flo) && mc::near(fl2.upper, fup), "force-limits",
              "limits of force " << i << " are " << sh(Vector(fl.lower)) << " " << sh(Vector(fl.upper)));
  }
  Index sp[4] = {r.m_force_util.get_force_id_left_foot(), r.m_force_util.get_force_id_right_foot(), r.m_force_util.get_force_id_left_hand(), r.m_force_util.get_force_id_right_hand()};
  for (int i = 0; i < 4; ++i) MC_EXPECT(c, sp[i] == m.special[i], "limb", "the id of the force of " << fn[i] << " is " << sp[i] << " instead of " << m.special[i]);
  auto f = [&m](const char *n) { return m.frames.count(n) ? m.frames.at(n) : std::string(); };
  MC_EXPECT(c, r.m_foot_util.m_Left_Foot_Frame_Name == f("LF") && r.m_foot_util.m_Right_Foot_Frame_Name == f("RF") && r.m_hand_util.m_Left_Hand_Frame_Name == f("LH") &&
                   r.m_hand_util.m_Right_Hand_Frame_Name == f("RH") && r.m_imu_joint_name == f("IMU"),
            "frames", "a frame is not the one told");
  MC_EXPECT(c, mc::near(r.m_foot_util.m_Right_Foot_Sole_XYZ, m.sole) && mc::near(r.m_foot_util.m_Right_Foot_Force_Sensor_XYZ, m.sensor), "foot", "the sole or the sensor of the foot is not the one told");
  MC_EXPECT(c, r.m_urdf_to_sot == m.map && r.m_nbJoints == m.map.size(), "map", "the map has " << r.m_urdf_to_sot.size() << " joints instead of " << m.map.size());
}
static void names(mc::Ctx &c) {
  std::string robots[2] = {mc::uniq("robot"), mc::uniq("robot")};
  ParameterServer a(mc::uniq("server")), b(mc::uniq("server"));
  ParameterServer *srv[2] = {&a, &b};
  int of[2] = {-1, -1};
  std::map<int, Robot> model;
  int depth = (c.thorough ? 5 : 4), group = c.choose(3, "group");
  std::map<int, RobotUtil *> found;
  for (int i = 0; i < depth; ++i) {
    int w = i < 1 + (group == 2) ? 0 : c.choose(group == 2 ? 2 : 1, "server");
    ParameterServer &s = *srv[w];
    int op = c.choose(group == 2 ? 5 : group == 1 ? 9 : 9, "command");
    Robot *m = of[w] < 0 ? NULL : &model[of[w]];
    static Robot nowhere;
    nowhere = Robot();
    Robot &to = m ? *m : nowhere;
    c.step();
    using mc::Value;
    if (group == 2 ? op < 3 : op == 0) {
      int k = group == 2 ? op : 0;
      double dt = k == 2 ? -1. * c.choose(2, "zero") : 0.001;
      if (k == 2) k = 1;
      MC_OP(c, "server " << w << " init(" << dt << ", robot " << k << ")");
      mc::run(s, "init", {Value(dt), Value(std::string("file")), Value(robots[k])});
      if (dt > 0) {
        of[w] = k;
        model[k];
        found[k] = getRobotUtil(robots[k]).get();
        MC_EXPECT(c, found[k] && found[k]->m_urdf_filename == "file", "file", "the robot has another file");
      }
      MC_EXPECT(c, isNameInRobotUtil(robots[k]) == (model.count(k) > 0), "registered", "robot " << k << " is" << (model.count(k) ? " not" : "") << " registered");
    } else if (group == 2) {
      std::string n = op == 3 ? "j" : "k";
      Index id = c.choose(2, "id");
      MC_OP(c, "server " << w << " setNameToId(" << n << ", " << id << ")");
      mc::run(s, "setNameToId", {Value(n), Value((double)id)});
      to.joints[n] = id;
    } else if (group == 0) {
      static const char *jn[] = {"j", "k", "l"};
      if (op < 4) {
        Index id = c.choose(3, "id");
        std::string n = jn[op - 1];
        MC_OP(c, "setNameToId(" << n << ", " << id << ")");
        mc::run(s, "setNameToId", {Value(n), Value((double)id)});
        to.joints[n] = id;
      } else if (op < 6) {
        Index id = op - 4;
        double lo = -1. - i, up = 2. + i;
        MC_OP(c, "setJointLimitsFromId(" << id << ")");
        mc::run(s, "setJointLimitsFromId", {Value((double)id), Value(lo), Value(up)});
        to.limits[id] = std::make_pair(lo, up);
      } else if (op == 6) {
        std::vector<Index> p = maps()[(size_t)c.choose(4, "map")];
        Vector v(p.size());
        for (size_t k = 0; k < p.size(); ++k) v((int)k) = (double)p[k];
        MC_OP(c, "setJointsUrdfToSot(" << sh(v) << ")");
        mc::run(s, "setJointsUrdfToSot", {Value(v)});
        to.map = p;
      } else {
        Vector v = mc::vec({i + 0.5, -1, 2});
        MC_OP(c, (op == 7 ? "setRightFootSoleXYZ " : "setRightFootForceSensorXYZ ") << i);
        mc::run(s, op == 7 ? "setRightFootSoleXYZ" : "setRightFootForceSensorXYZ", {Value(v)});
        (op == 7 ? to.sole : to.sensor) = v;
      }
    } else {
      static const char *fn[] = {"lf", "rf", "lh", "rh", "other"};
      if (op < 6) {
        Index id = c.choose(2, "id");
        std::string n = fn[op - 1];
        MC_OP(c, "setForceNameToForceId(" << n << ", " << id << ")");
        mc::run(s, "setForceNameToForceId", {Value(n), Value((double)id)});
        to.forces[n] = id;
        if (op < 5) to.special[op - 1] = id;
      } else if (op == 6) {
        Index id = c.choose(2, "id");
        MC_OP(c, "setForceLimitsFromId(" << id << ")");
        mc::run(s, "setForceLimitsFromId", {Value((double)id), Value(six(-10. - i)), Value(six(10. + i))});
        to.flimits[id] = std::make_pair(six(-10. - i), six(10. + i));
      } else if (op == 7) {
        static const char *sides[] = {"Left", "Right", "Middle"};
        int side = c.choose(3, "side"), foot = c.choose(2, "foot");
        std::string frame = mc::uniq("frame");
        MC_OP(c, "frame of the " << sides[side] << (foot ? " foot" : " hand"));
        mc::run(s, foot ? "setFootFrameName" : "setHandFrameName", {Value(std::string(sides[side])), Value(frame)});
        if (side < 2) to.frames[std::string(side ? "R" : "L") + (foot ? "F" : "H")] = frame;
      } else {
        std::string frame = mc::uniq("imu");
        MC_OP(c, "setImuJointName");
        mc::run(s, "setImuJointName", {Value(frame)});
        to.frames["IMU"] = frame;
      }
    }
    for (auto &p : model) look(c, *found[p.first], p.second);
    c.observe((uint64_t)model.size());
  }
  mc::run(a, "displayRobotUtil");
}

/* --- parameters ------------------------------------------------------------ */
static void parameters(mc::Ctx &c) {
  std::string robot = mc::uniq("robot");
  ParameterServer a(mc::uniq("server")), b(mc::uniq("server"));
  static const char *paths[] = {"a", "a/b", "c d"};
  static const char *types[] = {"Bool", "Int", "Dbl", ""};
  static const double dbl[] = {-1.0 / 3, 1e300, 5e-324};
  static const int ints[] = {-2147483647 - 1, 42};
  static const char *strings[] = {"two words", "12", "2.5"};
  struct V {
    int type = -1, k = 0;
  } v[3];
  using mc::Value;
  int depth = 1 + c.choose(c.thorough ? 4 : 3, "length");
  bool init = depth > 2 || !c.flag("late init");
  if (init)
    for (ParameterServer *s : {&a, &b}) mc::run(*s, "init", {Value(0.001), Value(std::string("file")), Value(robot)});
  for (int i = 0; i < depth; ++i) {
    if (!init && c.flag("init now")) {
      init = true;
      for (ParameterServer *s : {&a, &b}) mc::run(*s, "init", {Value(0.001), Value(std::string("file")), Value(robot)});
    }
    int p = c.choose(3, "path"), t = c.choose(4, "type"), k = c.choose(t < 2 ? 2 : 3, "value");
    MC_OP(c, "set " << types[t] << " " << paths[p] << " to value " << k);
    Value val = t == 0 ? Value(k == 1) : t == 1 ? Value(ints[k]) : t == 2 ? Value(dbl[k]) : Value(std::string(strings[k]));
    mc::run(a, std::string("setParameter") + types[t], {Value(std::string(paths[p])), val});
    c.step();
    if (init) {
      v[p].type = t;
      v[p].k = k;
    }
    c.observe((uint64_t)(p * 16 + t));
    if (i < depth - 1) continue;
    for (int q = 0; q < 3; ++q)
      for (int g = 0; g < 4; ++g)
        for (ParameterServer *s : {&b}) {
          bool th = false, eq = false;
          std::string got;
          const V &x = v[q];
          // 0: must be refused, 1: must be given, 2: nothing is said
          int want = x.type < 0 ? (q == 0 && v[1].type >= 0 && g == 3 ? 2 : 0) : x.type == g ? 1 : 2;
          try {
            Value r = mc::run(*s, std::string("getParameter") + types[g], {Value(std::string(paths[q]))});
            if (x.type == g) {
              bool bb;
              int ii;
              double dd;
              if (g == 0) {
                bb = r.value();
                eq = bb == (x.k == 1);
              } else if (g == 1) {
                ii = r.value();
                eq = ii == ints[x.k];
              } else if (g == 2) {
                dd = r.value();
                eq = dd == dbl[x.k];
              } else {
                std::string text = r.value();
                eq = text == strings[x.k];
              }
            } else if (x.type == 3) {  // written as text
              if (g == 1 && x.k == 1) {
                int ii = r.value();
                want = 1;
                eq = ii == 12;
              } else if (g == 2 && x.k >= 1) {
                double dd = r.value();
                want = 1;
                eq = dd == (x.k == 1 ? 12 : 2.5);
              } else
                want = 0;
            } else if (x.type == 1 && g == 3) {
              std::string ss = r.value();
              std::ostringstream os;
              os << ints[x.k];
              want = 1;
              eq = ss == os.str();
            } else if (x.type == 2 && g == 1)
              want = 0;
          } catch (std::exception &) {
            th = true;
            if (x.type == 3 && ((g == 1 && x.k == 1) || (g == 2 && x.k >= 1))) want = 1;
            if (x.type == 1 && g >= 2) want = 1;
          }
          if (want != 2)
            MC_EXPECT(c, th == (want == 0), "refused", "getParameter" << types[g] << "(" << paths[q] << ") " << (th ? "is refused" : "gives something") << "; it was set as " << (x.type < 0 ? "nothing" : x.type == 3 ? "text" : types[x.type]));
          if (want == 1) MC_EXPECT(c, eq, "value", "getParameter" << types[g] << "(" << paths[q] << ") is not the value set last");
        }
  }
}

/* --- robots ---------------------------------------------------------------- */
// in a process of its own: the list of robots is that of the process
static std::string inChild(mc::Ctx &c, std::function<std::string()> f) {
  int p[2];
  if (pipe(p)) throw std::runtime_error("pipe");
  fflush(NULL);
  pid_t pid = fork();
  if (!pid) {
    close(p[0]);
    dup2(p[1], 2);
    std::string s;
    try {
      s = f();
    } catch (std::exception &e) {
      s = std::string("exception: ") + e.what();
    }
    ssize_t n = write(p[1], s.data(), s.size());
    _exit(n == (ssize_t)s.size() ? 0 : 1);
  }
  close(p[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  MC_EXPECT(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash", "the process ended with status " << st << ": " << s.substr(0, 1500));
  return s;
}
static void robots(mc::Ctx &c) {
  int n = 1 + c.choose((c.thorough ? 5 : 4), "length");
  std::vector<int> ops;
  bool simple[2] = {false, false};
  for (int i = 0; i < n; ++i) {
    int o;
    do o = c.choose(10, "operation");
    while (0);
    if (o >= 4 && o < 8) {  // init_simple of a server succeeds once
      if (simple[o & 1] && o < 6) throw mc::Prune();
      if (o < 6) simple[o & 1] = true;
    }
    ops.push_back(o);
  }
  using mc::Value;
  std::set<std::string> known;
  std::map<std::string, std::string> imu;
  std::string at[2];
  std::ostringstream want;
  for (size_t i = 0; i < ops.size(); ++i) {
    int o = ops[i], w = o & 1;
    std::ostringstream tag;
    tag << "imu" << i;
    bool th = false;
    if (o < 4) {  // init with robot A or B
      at[w] = o < 2 ? "A" : "B";
      known.insert(at[w]);
      imu[at[w]];
    } else if (o < 6) {
      if (known.size() == 1)
        at[w] = *known.begin();
      else
        th = true;
    } else if (o < 8) {  // a bad period is ignored
    } else if (at[w].size())
      imu[at[w]] = tag.str();
    want << (th ? "x" : "-");
    for (auto &k : known) want << k << "(" << imu[k] << ")";
    want << ";";
  }
  std::string got = inChild(c, [&]() {
    std::ostringstream os;
    ParameterServer a("a"), b("b");
    ParameterServer *srv[2] = {&a, &b};
    for (size_t i = 0; i < ops.size(); ++i) {
      int o = ops[i];
      ParameterServer &s = *srv[o & 1];
      std::ostringstream tag;
      tag << "imu" << i;
      bool th = false;
      try {
        if (o < 4)
          mc::run(s, "init", {Value(0.005), Value(std::string("f")), Value(std::string(o < 2 ? "A" : "B"))});
        else if (o < 6)
          mc::run(s, "init_simple", {Value(0.005)});
        else if (o < 8)
          mc::run(s, "init_simple", {Value(o == 6 ? 0. : -1.)});
        else
          mc::run(s, "setImuJointName", {Value(tag.str())});
      } catch (ExceptionTools &) {
        th = true;
      }
      os << (th ? "x" : "-");
      std::shared_ptr<std::vector<std::string> > l = getListOfRobots();
      for (std::string k : *l) os << k << "(" << getRobotUtil(k)->m_imu_joint_name << ")";
      os << ";";
    }
    mc::run(a, "displayRobotUtil");
    return os.str();
  });
  c.step();
  MC_EXPECT(c, got == want.str(), "robots", "the robots are " << got << " instead of " << want.str());
  c.observe(mc::hstr(got));
}

/* --- mimic joints ------------------------------------------------------------ */
static void mimics(mc::Ctx &c) {
  int n = c.choose((c.thorough ? 6 : 5), "elements");
  std::string xml = "<?xml version=\"1.0\"?>\n<robot name=\"r\">";
  std::vector<std::string> want;
  for (int i = 0; i < n; ++i) {
    std::ostringstream nm;
    nm << "joint" << (char)('a' + i);
    std::string j = nm.str();
    switch (c.choose(8, "element")) {
      case 0: xml += "<joint name=\"" + j + "\" type=\"revolute\"><parent link=\"l\"/><mimic joint=\"m\" multiplier=\"2\" offset=\"1\"/></joint>"; want.push_back(j); break;
      case 1: xml += "<joint type=\"revolute\" name=\"" + j + "\">\n <mimic joint=\"m\"/>\n <limit lower=\"0\"/> <origin xyz=\"0 0 0\"/>\n</joint>\n"; want.push_back(j); break;
      case 2: xml += "<joint name=\"" + j + "\"><child link=\"l\"/><axis xyz=\"0 0 1\"/></joint>"; break;
      case 3: xml += "<link name=\"" + j + "\"><visual name=\"v\"><origin rpy=\"0 0 0\"/></visual></link>"; break;
      case 4: xml += "<transmission name=\"t\"><joint name=\"other\"><hardwareInterface>P</hardwareInterface></joint></transmission>"; break;
      case 5: xml += "<!-- joint mimic --><material name=\"blue\"/>"; break;
      case 6: xml += "<joint name=\"" + j + "\"/>"; break;
      default: xml += "<joint name=\"" + j + "\"><!-- mimic --><child link=\"name\"/><mimic joint=\"" + j + "x\"/></joint>"; want.push_back(j);
    }
  }
  xml += "</robot>\n";
  MC_OP(c, xml);
  c.step();
  ExtractJointMimics e(xml);
  const std::vector<std::string> &got = e.get_mimic_joints();
  std::ostringstream g;
  for (const std::string &s : got) g << s << " ";
  MC_EXPECT(c, got == want, "mimics", "the mimic joints of " << xml << " are " << g.str());
  c.observe(mc::hstr(g.str()));
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"joints", joints, "permutations of up to 4 joints, set once or twice", 2});
  S.push_back({"free-flyer", free_flyer, "10 pitches, 8 rolls, 8 yaws, both quaternions", 2});
  S.push_back({"bad-maps", bad_maps, "maps of up to 3 joints with indices out of the robot", 2});
  S.push_back({"names", names, "histories of 4 (thorough 5) commands to one or two servers", 4});
  S.push_back({"parameters", parameters, "histories of 3 (thorough 4) parameters, every one read with every type", 3});
  S.push_back({"robots", robots, "histories of up to 4 (thorough 5) initializations of two servers", 3});
  S.push_back({"mimics", mimics, "models of up to 4 (thorough 5) elements of 8 kinds", 3});
  return mc::main(argc, argv, "C24", S);
}
