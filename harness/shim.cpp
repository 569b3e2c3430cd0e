// Structs of the C API flattened to JSON, so that the Python side does not depend on their layout.  Compiled against /repo's headers.
#include "jobs.hpp"
#include "esminiLib.hpp"
#include "esminiRMLib.hpp"
#include "RoadManager.hpp"
#define X extern "C" __attribute__((visibility("default")))
static std::string R;
struct J
{
    std::string s;
    J& k(const char* n, const std::string& v) { s += (s.empty() ? "" : ",") + jstr(n) + ":" + v; return *this; }
    J& d(const char* n, double v) { return k(n, jnum(v)); }
    J& i(const char* n, long long v) { return k(n, std::to_string(v)); }
    J& t(const char* n, const char* v) { return k(n, v ? jstr(v) : "null"); }
    const char* done() { R = "{" + s + "}"; return R.c_str(); }
};
static int sid(id_t v) { return v == (id_t)-1 ? -1 : (int)v; }
static void ob(J& j, const SE_ScenarioObjectState& o)
{
    j.i("id", o.id).i("model", o.model_id).i("ctrl", o.ctrl_type).d("t", o.timestamp).d("x", o.x).d("y", o.y).d("z", o.z).d("h", o.h).d("p", o.p).d("r", o.r)
        .i("road", sid(o.roadId)).i("junction", sid(o.junctionId)).d("tt", o.t).i("lane", o.laneId).d("off", o.laneOffset).d("s", o.s).d("speed", o.speed)
        .d("cx", o.centerOffsetX).d("cy", o.centerOffsetY).d("cz", o.centerOffsetZ).d("w", o.width).d("l", o.length).d("hgt", o.height)
        .i("type", o.objectType).i("cat", o.objectCategory).d("wa", o.wheel_angle).d("wr", o.wheel_rot).i("vis", o.visibilityMask);
}
X const char* vf_obj(int id)
{
    SE_ScenarioObjectState o;
    memset(&o, 0, sizeof o);
    J j;
    int rc = SE_GetObjectState(id, &o);
    j.i("rc", rc);
    if (rc == 0) ob(j, o);
    return j.done();
}
// all objects: id, name, state
X const char* vf_objs()
{
    std::string a;
    int         n = SE_GetNumberOfObjects();
    for (int i = 0; i < n; i++)
    {
        SE_ScenarioObjectState o;
        memset(&o, 0, sizeof o);
        int id = SE_GetId(i), rc = SE_GetObjectState(id, &o);
        J   j;
        j.i("oid", id).t("name", SE_GetObjectName(id)).i("rc", rc);
        if (rc == 0) ob(j, o);
        j.d("odo", SE_GetObjectOdometer(id)).d("acc", SE_GetObjectAcceleration(id));
        a += (i ? "," : "") + std::string("{") + j.s + "}";
    }
    R = "[" + a + "]";
    return R.c_str();
}
X const char* vf_roadinfo(int id, double dist, int mode, int inRoadDir)
{
    SE_RoadInfo o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetRoadInfoAtDistance(id, dist, &o, mode, inRoadDir != 0);
    j.i("rc", rc).d("x", o.global_pos_x).d("y", o.global_pos_y).d("z", o.global_pos_z).d("lx", o.local_pos_x).d("ly", o.local_pos_y).d("h", o.road_heading)
        .d("curv", o.curvature).d("limit", o.speed_limit).i("road", sid(o.roadId)).i("junction", sid(o.junctionId)).i("lane", o.laneId).d("off", o.laneOffset).d("s", o.s).d("tt", o.t)
        .i("rtype", o.road_type).i("rule", o.road_rule).i("ltype", o.lane_type).d("angle", o.angle);
    return j.done();
}
X const char* vf_dist(int a, int b, int fs)
{
    SE_PositionDiff o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetDistanceToObject(a, b, fs != 0, &o);
    j.i("rc", rc).d("ds", o.ds).d("dt", o.dt).i("dlane", o.dLaneId).d("dx", o.dx).d("dy", o.dy).i("opp", o.oppositeLanes);
    return j.done();
}
X const char* vf_light(int id, int type)
{
    SE_LightState o = {-9, false};
    J             j;
    int           rc = SE_GetObjectLightState(id, (SE_VehicleLightType)type, &o);
    j.i("rc", rc).i("mode", o.light_mode).i("on", o.emitting);
    return j.done();
}
X const char* vf_overrides(int id)
{
    SE_OverrideActionList o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetOverrideActionStatus(id, &o);
    j.i("rc", rc).i("throttle", o.throttle.active).d("throttle_v", o.throttle.value).d("throttle_r", o.throttle.maxRate).i("brake", o.brake.active).d("brake_v", o.brake.value).d("brake_r", o.brake.maxRate)
        .i("brake_t", o.brake.value_type).i("clutch", o.clutch.active).d("clutch_v", o.clutch.value).d("clutch_r", o.clutch.maxRate).i("parking", o.parkingBrake.active).d("parking_v", o.parkingBrake.value)
        .d("parking_r", o.parkingBrake.maxRate).i("parking_t", o.parkingBrake.value_type).i("steering", o.steeringWheel.active).d("steering_v", o.steeringWheel.value).d("steering_r", o.steeringWheel.maxRate)
        .d("steering_q", o.steeringWheel.maxTorque).i("gear", o.gear.active).i("gear_n", o.gear.number).i("gear_t", o.gear.value_type);
    return j.done();
}
// lamps of all traffic lights, by signal
X const char* vf_lamps()
{
    std::string a;
    for (auto* sg : roadmanager::Position::GetOpenDrive()->GetDynamicSignals())
    {
        auto* tl = dynamic_cast<roadmanager::TrafficLight*>(sg);
        if (tl == nullptr) continue;
        std::string b;
        for (size_t i = 0; i < tl->GetNrLamps(); i++) b += (i ? "," : "") + std::to_string((int)tl->GetLamp(i)->GetMode());
        a += (a.empty() ? "" : ",") + std::string("[") + std::to_string(tl->GetId()) + ",[" + b + "]]";
    }
    R = "[" + a + "]";
    return R.c_str();
}
X const char* vf_routepoint(int id, int n)
{
    SE_RouteInfo o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetRoutePoint(id, (unsigned)n, &o);
    j.i("rc", rc).d("x", o.x).d("y", o.y).i("road", sid(o.roadId)).i("lane", o.laneId).d("off", o.laneOffset).d("s", o.s).d("tt", o.t).d("h", o.h);
    return j.done();
}
X const char* vf_sign(int road, int n)
{
    SE_RoadSign o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetRoadSign((id_t)road, (unsigned)n, &o);
    j.i("rc", rc).i("id", o.id).d("x", o.x).d("y", o.y).d("z", o.z).d("zo", o.z_offset).d("h", o.h).i("road", o.roadId).d("s", o.s).d("tt", o.t).t("name", rc == 0 ? o.name : "").i("orient", o.orientation)
        .d("l", o.length).d("hgt", o.height).d("w", o.width);
    return j.done();
}
X const char* vf_validity(int road, int n, int v)
{
    SE_RoadObjValidity o = {0, 0};
    J                  j;
    int                rc = SE_GetRoadSignValidityRecord((id_t)road, (unsigned)n, (unsigned)v, &o);
    j.i("rc", rc).i("from", o.fromLane).i("to", o.toLane);
    return j.done();
}
X const char* vf_wheel(int id, int n)
{
    SE_WheelData o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = SE_GetObjectWheelData(id, n, &o);
    j.i("rc", rc).d("x", o.x).d("y", o.y).d("z", o.z).d("h", o.h).d("p", o.p).d("radius", o.wheel_radius).d("fric", o.friction_coefficient).i("axle", o.axle).i("index", o.index);
    return j.done();
}
X void vf_inject_speed(int id, double speed, int shape, int dim, double value)
{
    SE_SpeedActionStruct a = {id, speed, shape, dim, value};
    SE_InjectSpeedAction(&a);
}
X void vf_inject_lc(int id, int mode, int target, int shape, int dim, double value)
{
    SE_LaneChangeActionStruct a = {id, mode, target, shape, dim, value};
    SE_InjectLaneChangeAction(&a);
}
X void vf_inject_off(int id, double off, double acc, int shape)
{
    SE_LaneOffsetActionStruct a = {id, off, acc, shape};
    SE_InjectLaneOffsetAction(&a);
}
X int vf_addbb(const char* name, int type, int cat, int role, int model, double cx, double cy, double cz, double l, double w, double h, int scale)
{
    SE_OSCBoundingBox b;
    b.center_     = {cx, cy, cz};
    b.dimensions_ = {w, l, h};
    return SE_AddObjectWithBoundingBox(name, type, cat, role, model, "", b, scale);
}
// typed access through the untyped structs
X int vf_set_param(const char* name, const void* v) { SE_Parameter p = {name, const_cast<void*>(v)}; return SE_SetParameter(p); }
X int vf_set_var(const char* name, const void* v) { SE_Variable p = {name, const_cast<void*>(v)}; return SE_SetVariable(p); }
X int vf_get_param(const char* name, void* v) { SE_Parameter p = {name, v}; return SE_GetParameter(&p); }
X int vf_get_var(const char* name, void* v) { SE_Variable p = {name, v}; return SE_GetVariable(&p); }

// road manager positions
X const char* vf_pos(int h)
{
    RM_PositionData o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = RM_GetPositionData(h, &o);
    j.i("rc", rc).d("x", o.x).d("y", o.y).d("z", o.z).d("h", o.h).d("p", o.p).d("r", o.r).d("hrel", o.hRelative).i("road", sid(o.roadId)).i("junction", sid(o.junctionId)).i("lane", o.laneId)
        .d("off", o.laneOffset).d("s", o.s);
    return j.done();
}
static void li(J& j, const RM_RoadLaneInfo& o)
{
    j.d("x", o.pos.x).d("y", o.pos.y).d("z", o.pos.z).d("h", o.heading).d("p", o.pitch).d("r", o.roll).d("w", o.width).d("curv", o.curvature).d("limit", o.speed_limit).i("road", sid(o.roadId)).i("junction", sid(o.junctionId))
        .i("lane", o.laneId).d("off", o.laneOffset).d("s", o.s).d("tt", o.t).i("rtype", o.road_type).i("rule", o.road_rule).i("ltype", o.lane_type);
}
X const char* vf_laneinfo(int h, double dist, int mode, int dir)
{
    RM_RoadLaneInfo o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = RM_GetLaneInfo(h, dist, &o, mode, dir != 0);
    j.i("rc", rc);
    li(j, o);
    return j.done();
}
X const char* vf_probe(int h, double dist, int mode, int dir)
{
    RM_RoadProbeInfo o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = RM_GetProbeInfo(h, dist, &o, mode, dir != 0);
    j.i("rc", rc);
    li(j, o.road_lane_info);
    j.d("rx", o.relative_pos.x).d("ry", o.relative_pos.y).d("rh", o.relative_h);
    return j.done();
}
X const char* vf_rmdiff(int a, int b)
{
    RM_PositionDiff o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = RM_SubtractAFromB(a, b, &o);
    j.i("rc", rc).d("ds", o.ds).d("dt", o.dt).i("dlane", o.dLaneId);
    return j.done();
}
X const char* vf_rmsign(int road, int n)
{
    RM_RoadSign o;
    memset(&o, 0, sizeof o);
    J   j;
    int rc = RM_GetRoadSign((id_t)road, (unsigned)n, &o);
    j.i("rc", rc).i("id", o.id).d("x", o.x).d("y", o.y).i("road", (int)o.roadId).d("s", o.s).d("tt", o.t).t("name", rc == 0 ? o.name : "").i("orient", o.orientation);
    return j.done();
}

// notifications
static std::string g_log;
static void        add(const std::string& s) { g_log += (g_log.empty() ? "" : ",") + s; }
static void        on_state(const char* name, int type, int state, const char* path)
{
    add("[\"e\"," + jstr(path) + "," + std::to_string(type) + "," + std::to_string(state) + "," + jstr(name) + "]");
}
static void on_cond(const char* name, double t) { add("[\"c\"," + jstr(name) + "," + jnum(t) + "]"); }
static void on_obj(SE_ScenarioObjectState* o, void* u) { add("[\"o\"," + std::to_string((long)(intptr_t)u) + "," + std::to_string(o->id) + "," + jnum(o->s) + "," + jnum(o->speed) + "," + jnum(o->timestamp) + "]"); }
static void (*g_user)() = nullptr;
X void vf_register()
{
    SE_RegisterStoryBoardElementStateChangeCallback(on_state);
    SE_RegisterConditionCallback(on_cond);
}
X void vf_register_obj(int id, int tag) { SE_RegisterObjectCallback(id, on_obj, (void*)(intptr_t)tag); }
// callbacks again during initialisation, once the parameters are declared; fn (may be null) is called then as well
X void vf_register_early(void (*fn)())
{
    g_user = fn;
    SE_RegisterParameterDeclarationCallback([](void*) { vf_register(); if (g_user) g_user(); }, nullptr);
}
X const char* vf_drain()
{
    R = "[" + g_log + "]";
    g_log.clear();
    return R.c_str();
}

// recordings
#include "Replay.hpp"
static scenarioengine::Replay* rep = nullptr;
X const char* vf_rep_open(const char* path)
{
    delete rep;
    rep = nullptr;
    J j;
    try
    {
        rep = new scenarioengine::Replay(path, true);
    }
    catch (...)
    {
        j.i("rc", -1);
        return j.done();
    }
    std::string t, ids, esc;
    for (double x : rep->timestamps_) t += (t.empty() ? "" : ",") + jnum(x);
    for (auto& o : rep->objects_timeline_) ids += (ids.empty() ? "" : ",") + std::to_string(o.first);
    for (auto& e : rep->element_state_changes_.values) esc += (esc.empty() ? "[" : ",[") + jnum(e.first) + "," + jstr(e.second.c_str()) + "]";
    j.i("rc", 0).d("start", rep->GetStartTime()).d("stop", rep->GetStopTime()).d("time", rep->GetTime()).k("times", "[" + t + "]").k("ids", "[" + ids + "]").k("esc", "[" + esc + "]")
        .t("odr", rep->dat_header_.odr_filename.string.c_str());
    return j.done();
}
X const char* vf_rep_go(int kind, double x, int flag)
{
    J   j;
    int rc = 0;
    switch (kind)
    {
        case 0: break;
        case 1: rep->GoToTime(x, flag != 0); break;
        case 2: rep->GoToDeltaTime(x, flag != 0); break;
        case 3: rc = rep->GoToNextFrame(); break;
        case 4: rep->GoToPreviousFrame(); break;
        case 5: rep->SetStartTime(x); break;
        case 6: rep->SetStopTime(x); break;
        case 7: rep->SetRepeat(flag != 0); break;
        case 8: rep->GoToStart(flag != 0); break;
        case 9: rep->GoToEnd(flag != 0); break;
        case 10: rep->SetTimeToNearestTimestamp(); break;
    }
    j.i("rc", rc).d("time", rep->GetTime()).i("index", rep->GetIndex()).d("start", rep->GetStartTime()).d("stop", rep->GetStopTime());
    return j.done();
}
X const char* vf_rep_at(double t, int bin)
{
    std::string a;
    for (int id : rep->GetAllObjectIDs())
    {
        J j;
        try
        {
            auto  e = bin ? rep->GetReplayEntryAtTimeBinary(id, t) : rep->GetReplayEntryAtTimeIncremental(id, t);
            auto& o = e.state.info;
            auto& p = e.state.pos;
            std::string li;
            for (auto& l : o.light_state) li += (li.empty() ? "" : ",") + std::to_string(e.has_lightstate ? (int)l.mode : -2);
            j.i("oid", id).i("active", o.active).t("name", o.name.c_str()).i("model", o.model_id).i("ctrl", o.ctrl_type).d("t", o.timeStamp).d("x", p.x).d("y", p.y).d("z", p.z).d("h", p.h).d("p", p.p).d("r", p.r)
                .i("road", sid(p.roadId)).d("tt", p.t).i("lane", p.laneId).d("off", p.offset).d("s", p.s).d("speed", o.speed)
                .d("cx", o.boundingbox.center_.x_).d("cy", o.boundingbox.center_.y_).d("cz", o.boundingbox.center_.z_).d("w", o.boundingbox.dimensions_.width_)
                .d("l", o.boundingbox.dimensions_.length_).d("hgt", o.boundingbox.dimensions_.height_)
                .i("type", o.obj_type).i("cat", o.obj_category).d("wa", o.wheel_angle).d("wr", o.wheel_rot).i("vis", o.visibilityMask).k("lights", "[" + li + "]");
        }
        catch (...)
        {
            j.i("oid", id).i("active", -1);
        }
        a += (a.empty() ? "{" : ",{") + j.s + "}";
    }
    R = "[" + a + "]";
    return R.c_str();
}
