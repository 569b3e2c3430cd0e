From a8df1180c18f2906417f786ee3cb783643190f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 01/71] fix: do not restart a storyboard that was stopped in
 the initial frame

A storyboard stop trigger that is true at time 0 completes the storyboard in frame 0. The frame counter then stays 0,
so the next step started the storyboard and all its elements again.
---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..a6c0637 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -137,7 +137,7 @@ int ScenarioEngine::step(double deltaSimTime)
 {
     UpdateGhostMode();
 
-    if (frame_nr_ == 0)
+    if (frame_nr_ == 0 && storyBoard.GetCurrentState() == StoryBoardElement::State::INIT)
     {
         storyBoard.Start(simulationTime_);
 
-- 
2.43.0


From c3c8c3a5502f468761e1c8637acb3462bcd814a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 02/71] fix: restart the execution count of an event when its
 maneuver group is executed again

The count survived the reset, so an event with maximumExecutionCount 3 ran three times in the first execution of its
group but only once in the following ones.
---
 .../Modules/ScenarioEngine/SourceFiles/StoryboardElement.cpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/StoryboardElement.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/StoryboardElement.cpp
index f94b70a..11d439e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/StoryboardElement.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/StoryboardElement.cpp
@@ -373,6 +373,7 @@ void StoryBoardElement::Reset(State state)
 
     ResetState(state);
     ResetTransition();
+    num_executions_ = 0;
 
     if (start_trigger_ != nullptr)
     {
-- 
2.43.0


From 602d3e6013b91778f50c3d48e8cc04e2581a4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 03/71] fix: deactivate the conflicting controller, not the one
 being activated

From OSC v1.3 activation is per domain, but the wrong controller was deactivated and the previously active one stayed
active on the same domain.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..658a044 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -832,9 +832,9 @@ void ActivateControllerAction::Start(double simTime)
                 {
                     if (scenarioEngine_->GetScenarioReader()->GetVersionMinor() >= 3)
                     {
-                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", controller_->GetName(), ControlDomain2Str(domain));
+                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
                         // from osc v1.3 onwards, deactivation is done per domain
-                        controller_->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
+                        ctrl->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
                     }
                     else
                     {
-- 
2.43.0


From 25ac522b8378dd625b5ba69e6497885531758282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:09 +0000
Subject: [PATCH 04/71] fix: SpeedAction over distance keeps its distance when
 executed again

The distance was replaced by the corresponding time at the first start, so that any
further execution of the event took that time for the distance.
---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 10 +++++++++-
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp    |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 658a044..8025ed1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1198,9 +1198,15 @@ void LongSpeedAction::Start(double simTime)
         // Convert to time, since speed shape is expected over time, not distance (as in lane change case)
         // special cased when speed changes sign:
 
+        if (transition_.GetParamTargetVal() != transition_time_)
+        {
+            // not yet converted. The distance is replaced by the corresponding time below, remember it for any further execution.
+            transition_distance_ = transition_.GetParamTargetVal();
+        }
+
         double v0   = transition_.GetStartVal();
         double v1   = target_->GetValue();
-        double dist = transition_.GetParamTargetVal();
+        double dist = transition_distance_;
 
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
@@ -1231,6 +1237,8 @@ void LongSpeedAction::Start(double simTime)
             // => time = 2*distance/(v_init + v_end)
             transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
         }
+
+        transition_time_ = transition_.GetParamTargetVal();
     }
 
     transition_.SetTargetVal(ABS_LIMIT(target_->GetValue(), object_->performance_.maxSpeed));
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..0897745 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -260,6 +260,8 @@ namespace scenarioengine
 
         std::shared_ptr<Target> target_;
         bool                    target_speed_reached_;
+        double                  transition_distance_ = 0.0;   // specified distance, if any, kept for repeated executions
+        double                  transition_time_     = -1.0;  // time that the distance was converted into
 
         LongSpeedAction(StoryBoardElement* parent)
             : OSCPrivateAction(OSCPrivateAction::ActionType::LONG_SPEED, parent, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
@@ -277,6 +279,8 @@ namespace scenarioengine
             target_               = action.target_;
             transition_           = action.transition_;
             target_speed_reached_ = action.target_speed_reached_;
+            transition_distance_  = action.transition_distance_;
+            transition_time_      = action.transition_time_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0


From 659fef83a25bd5f9c535c49f379ae24d160b9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 05/71] fix: follow the lane to the road end before entering
 the next road

A move of several lane sections in one step entered the next road from the lane
index of the section where the move started
---
 .../Modules/RoadManager/RoadManager.cpp       | 20 +++++++++++++++----
 .../Modules/RoadManager/RoadManager.hpp       |  7 +++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..34287fb 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10331,6 +10331,18 @@ double Position::DistanceToDS(double ds)
     return ds;
 }
 
+void Position::FollowLaneToS(const Road* road, double s)
+{
+    LaneInfo li;
+
+    if (road->GetLaneInfoByS(s, lane_section_idx_, lane_id_, li, snapToLaneTypes_) >= 0)
+    {
+        lane_section_idx_ = li.lane_section_idx_;
+        lane_id_          = li.lane_id_;
+        lane_idx_         = road->GetLaneSectionByIdx(lane_section_idx_)->GetLaneIdxById(lane_id_);
+    }
+}
+
 Position::ReturnCode Position::MoveAlongS(double            ds,
                                           double            dLaneOffset,
                                           double            junctionSelectorAngle,
@@ -10401,8 +10413,8 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     {
         if (s_ + ds_road > GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength())
         {
-            // beyond end of road, ensure last lane section
-            lane_section_idx_ = road->GetNumberOfLaneSections() - 1;
+            // beyond end of road, follow the lane to the last lane section
+            FollowLaneToS(road, road->GetLength());
 
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road - GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
@@ -10413,8 +10425,8 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
         }
         else if (s_ + ds_road < 0)
         {
-            // beyond start of road, ensure first lane section
-            lane_section_idx_ = 0;
+            // beyond start of road, follow the lane to the first lane section
+            FollowLaneToS(road, 0.0);
 
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road;
diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
index 55cce73..5d6f345 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
@@ -4151,6 +4151,13 @@ namespace roadmanager
 
         ReturnCode MoveToConnectingRoad(RoadLink *road_link, ContactPointType &contact_point_type, double junctionSelectorAngle = -1.0);
 
+        /**
+        Follow the current lane, via lane links, to the lane section at s. Only the lane and lane section are updated.
+        @param road The current road
+        @param s Longitudinal coordinate within the road
+        */
+        void FollowLaneToS(const Road *road, double s);
+
         void SetRelativePosition(Position *rel_pos, PositionType type);
 
         Position *GetRelativePosition() const
-- 
2.43.0


From 1047848fd5e9594d4bfd541dac72b64d01537b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:14 +0000
Subject: [PATCH 06/71] fix: follow lane links only up to the lane section at
 the target s

GetConnectedLaneIdAtS went one lane section too far for targets within the road
---
 .../Modules/RoadManager/RoadManager.cpp                | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 34287fb..70e9573 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3147,26 +3147,24 @@ int Road::GetConnectedLaneIdAtS(int lane_id, double s_start, double s_target) co
         LaneSection* lsec = GetLaneSectionByIdx(lsec_idx);
         if (lsec != nullptr)
         {
-            int    lane_id_tmp = lane_id;
-            double s           = s_start;
+            int         lane_id_tmp     = lane_id;
+            const idx_t lsec_idx_target = GetLaneSectionIdxByS(MIN(s_target, GetLength()));
             if (s_target > s_start - SMALL_NUMBER)
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s < s_target; j++)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < lsec_idx_target; j++)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
-                    s           = lsec->GetS();
                 }
             }
             else
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s > s_target; j--)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > lsec_idx_target; j--)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
-                    s           = lsec->GetS();
                 }
             }
             connected_lane_id = lane_id_tmp;
-- 
2.43.0


From 5155dd1eefec133acf468ab6ac35a3bf4540ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:39 +0000
Subject: [PATCH 07/71] fix: a lane id given explicitly refers to the lane
 section at s

RM_SetLanePosition and SE_ReportObjectRoadPos followed lane links from the previous
position when road and lane id were unchanged
---
 .../Libraries/esminiLib/esminiLib.cpp           |  4 +++-
 .../Libraries/esminiRMLib/esminiRMLib.cpp       | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..de25a54 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1248,7 +1248,9 @@ extern "C"
             return -1;
         }
 
-        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset);
+        // lane id refers to the lane section at s, regardless of current position
+        roadmanager::Road *road = roadmanager::Position::GetOpenDrive()->GetRoadById(roadId);
+        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset, road ? road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..8d3f2f2 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -474,15 +474,18 @@ extern "C"
             roadmanager::Position* pos = &position[static_cast<unsigned int>(handle)];
             if (pos)
             {
-                int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset));
+                roadmanager::OpenDrive* odr = roadmanager::Position::GetOpenDrive();
+                if (odr == nullptr)
+                {
+                    return -1;
+                }
+
+                // lane id refers to the lane section at s, regardless of current position
+                roadmanager::Road* road   = odr->GetRoadById(roadId);
+                idx_t              ls_idx = road ? road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+                int                retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset, ls_idx));
                 if (retval >= 0 && align)
                 {
-                    roadmanager::OpenDrive* odr = roadmanager::Position::GetOpenDrive();
-                    if (odr == nullptr)
-                    {
-                        return -1;
-                    }
-                    roadmanager::Road* road = odr->GetRoadById(roadId);
                     if (road == nullptr)
                     {
                         return -1;
-- 
2.43.0


From 41cd491bfbe172b6e61416d76c135cfefca4d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:18 +0000
Subject: [PATCH 08/71] fix: lane difference between positions follows the lane
 links

RoadPath::Calculate evaluated the second search direction from the lane found for
the first one, and Position::Delta entered the road of the other position at the
wrong end or with the lane of the wrong lane section
---
 .../Modules/RoadManager/RoadManager.cpp       | 47 +++++++++----------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 70e9573..18bac7d 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6158,13 +6158,14 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             pNode->link     = link;
             pNode->fromRoad = pivotRoad;
 
+            // lane at the link, starting out from the lane of the start position in both directions
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
@@ -11737,31 +11738,29 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
 
         if (last_node != nullptr)
         {
-            // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // Find out which end of the road of pos B the path enters
+            ContactPointType entry = last_node->link->GetContactPointType();
+            if (last_node->link->GetElementType() == RoadLink::ElementType::ELEMENT_TYPE_JUNCTION)
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
-
-                // Check relative heading
-                pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
+                if (!last_node->fromRoad->IsSuccessor(road_B, &entry))
+                {
+                    last_node->fromRoad->IsPredecessor(road_B, &entry);
+                }
             }
-            else
-            {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
 
-                // Check relative heading
-                pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
-            }
+            // Find out corresponding lane ID of connected route up to pos B
+            // start out from the lane at the end of the path, then find out the connecting lane on road of pos B
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, entry == ContactPointType::CONTACT_POINT_START ? 0.0 : -1.0, pos_b->GetS());
+
+            // Check relative heading: coming in at the start of the road, we are aligned with the road direction
+            pos_a_forward = entry == ContactPointType::CONTACT_POINT_START;
+        }
+        else if (road_B != nullptr)
+        {
+            // same road, possibly another lane section
+            adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(GetLaneId(), GetS(), pos_b->GetS());
         }
         // If the relative direction of the two positions is the same, we are driving in the same direction unless the detected path is reversed, then
         // we have to invert the dDirection
-- 
2.43.0


From 61bd4f0947a2e63c950ae2a63a1c7bf9216c73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 09/71] fix: evaluate the 'all' triggering entities rule for
 each entity on its own

---
 .../OSCTypeDefs/OSCCondition.cpp              | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..497e9b6 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -769,11 +769,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -847,11 +847,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -894,7 +894,8 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
         }
         pos->EvaluateRelation();
 
-        dist_ = fabs(trigObj->pos_.getRelativeDistance(pos->GetX(), pos->GetY(), dist_x, dist_y));
+        result = false;
+        dist_  = fabs(trigObj->pos_.getRelativeDistance(pos->GetX(), pos->GetY(), dist_x, dist_y));
         if (dist_ < tolerance_)  // dist may reach half lane width, since offset of relative position is 0
         {
             // Check for any orientation condition
@@ -1065,6 +1066,8 @@ bool TrigByCollision::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (object_ && object_->IsActive())
         {
             if (trigObj->Collision(object_))
@@ -1201,6 +1204,8 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1244,6 +1249,8 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1285,6 +1292,8 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
-- 
2.43.0


From 7919565609383778b4566419c36f83d4af5edf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 10/71] fix: compare orientation across the 0/2pi wrap in the
 reach position condition

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 497e9b6..1fdae41 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -901,8 +901,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
-- 
2.43.0


From 9e454cdddeff39b7d85b56a7f767c177b4a49a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 11/71] fix: register the triggering entities of the angle
 condition

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 1fdae41..2838d58 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1467,6 +1467,11 @@ bool TrigByAngle::CheckCondition(double sim_time)
         auto   diff                   = GetAbsAngleDifference(current_angle_adjusted, value_);
         result                        = diff < tolerance_ + SMALL_NUMBER;
 
+        if (result == true)
+        {
+            triggered_by_entities_.push_back(entity.object_);
+        }
+
         if (EvalDone(result, triggering_entity_rule_))
         {
             break;
-- 
2.43.0


From b5e1ff52e3d7a40c1087e50dc95e0d3c79374c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 12/71] fix: free space distance to a vehicle that has, or is,
 a trailer

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..011a219 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1074,7 +1074,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1131,7 +1131,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1146,7 +1146,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From 3b28bf5c89c7eef6518f29784a7bf58f051ee255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:09 +0000
Subject: [PATCH 13/71] fix: free space road distance when one bounding box
 lies within the span of the other

---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 54 ++++++++++---------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 011a219..7467198 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -832,12 +832,14 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
         return -1;
     }
 
-    // Find long and lat max values
+    // Find long and lat min values
     Position     pos[4];
-    double       maxDS = 0.0;
-    double       minDS = LARGE_NUMBER;
-    double       maxDT = 0.0;
-    double       minDT = LARGE_NUMBER;
+    double       firstDS    = 0.0;
+    double       minDS      = LARGE_NUMBER;
+    double       maxLeftDT  = 0.0;
+    double       maxRightDT = 0.0;
+    double       minDT      = LARGE_NUMBER;
+    bool         overlapDS  = false;
     PositionDiff posDiff;
     for (int j = 0; j < 4; j++)
     {
@@ -864,29 +866,28 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
             minDT = posDiff.dt;
         }
 
-        if (j == 0 || fabs(posDiff.ds) > fabs(maxDS))
+        // vertices both ahead of and behind the point means overlap
+        if (j == 0)
         {
-            maxDS = posDiff.ds;
+            firstDS = posDiff.ds;
         }
+        overlapDS = overlapDS || SIGN(posDiff.ds) != SIGN(firstDS);
 
-        if (j == 0 || fabs(posDiff.dt) > fabs(maxDT))
-        {
-            maxDT = posDiff.dt;
-        }
+        maxLeftDT  = MAX(maxLeftDT, posDiff.dt);
+        maxRightDT = MAX(maxRightDT, -posDiff.dt);
     }
 
     *longDist = minDS;
     *latDist  = minDT;
 
     // Check for overlap
-    if (SIGN(minDS) != SIGN(maxDS))
+    if (overlapDS)
     {
-        // Overlap
         *longDist = 0.0;
     }
-    if (SIGN(minDT) != SIGN(maxDT))
+    if (minDT < 0.0 ? maxLeftDT > maxRightDT - SMALL_NUMBER : maxRightDT > maxLeftDT - SMALL_NUMBER)
     {
-        // Overlap
+        // the box reaches at least as far on the other side of the point as on the side of its closest vertex
         *latDist = 0.0;
     }
 
@@ -1022,18 +1023,21 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
     posDiff->ds = minDS;
     posDiff->dt = minDT;
 
-    // Check for overlap
-    for (int i = 0; i < 4; i++)  // for each ds
+    // Check for overlap, i.e. vertices of one box found on both sides of some vertex of the other
+    for (int i = 0; i < 4; i++)  // for each vertex of first BBs
     {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
-        {
-            // Overlap
-            posDiff->ds = 0.0;
-        }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
+        for (int j = 0; j < 4; j++)  // for each vertex of second BBs
         {
-            // Overlap
-            posDiff->dt = 0.0;
+            if (SIGN(ds[i][j]) != SIGN(ds[0][0]))
+            {
+                // Overlap
+                posDiff->ds = 0.0;
+            }
+            if (SIGN(dt[i][j]) != SIGN(dt[0][0]))
+            {
+                // Overlap
+                posDiff->dt = 0.0;
+            }
         }
     }
 
-- 
2.43.0


From 5a1e9ac9768b898d4c35297a08277932d53e2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:09 +0000
Subject: [PATCH 14/71] fix: relative clearance of one triggering entity does
 not depend on the previous one

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 2838d58..4a17d1b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1634,7 +1634,8 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
         }
 
         Object* refObject_;
-        result = false;
+        result   = false;
+        objFound = false;
 
         // First check all entities within lane range
         for (size_t j = 0; j < storyBoard_->entities_->object_.size(); j++)
-- 
2.43.0


From 4834ee32608dbd8ff1e5c650ac205f3f8ee9984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:15 +0000
Subject: [PATCH 15/71] fix: time to collision with a relative position follows
 the entity it relates to

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 4a17d1b..8a6abe3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -815,6 +815,7 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
         {
             roadmanager::Position* pos      = position_->GetRMPos();
             double                 rel_dist = LARGE_NUMBER;
+            pos->EvaluateRelation();
             if (trigObj->Distance(pos->GetX(), pos->GetY(), cs_, relDistType_, freespace_, rel_dist) != 0)
             {
                 rel_dist = LARGE_NUMBER;
-- 
2.43.0


From 2fbeb51267e345462a73c5b49550043259ade17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:15 +0000
Subject: [PATCH 16/71] fix: time to collision of a standing entity with an
 oncoming one

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 7467198..e010fac 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1379,6 +1379,11 @@ int Object::TimeToCollision(Object*                           target,
         // target standing still, consider only speed of triggering entity
         rel_speed = this->GetSpeed();
     }
+    else if (fabs(this->pos_.GetVelX()) < SMALL_NUMBER && fabs(this->pos_.GetVelY()) < SMALL_NUMBER)
+    {
+        // triggering entity standing still, consider only speed of target, along the heading of the triggering entity
+        rel_speed = -(target->pos_.GetVelX() * cos(this->pos_.GetH()) + target->pos_.GetVelY() * sin(this->pos_.GetH()));
+    }
     else
     {
         double rel_vel[2] = {0.0, 0.0};
-- 
2.43.0


From 4b92e5294b64a9611dc05c7df4e3fed669774501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:57 +0000
Subject: [PATCH 17/71] fix: stand still, off road and end of road states
 starting at time zero

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp  | 12 ++++++------
 .../Modules/ScenarioEngine/SourceFiles/Entities.hpp  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index e010fac..6a4cc62 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -30,9 +30,9 @@ Object::Object(Type type)
       ghost_trail_s_(0),
       trail_follow_index_(0),
       odometer_(0),
-      end_of_road_timestamp_(0.0),
-      off_road_timestamp_(0.0),
-      stand_still_timestamp_(0),
+      end_of_road_timestamp_(std::nan("")),
+      off_road_timestamp_(std::nan("")),
+      stand_still_timestamp_(std::nan("")),
       headstart_time_(0),
       ghost_(0),
       ghost_Ego_(0),
@@ -89,7 +89,7 @@ void Object::SetEndOfRoad(bool state, double time)
     }
     else
     {
-        end_of_road_timestamp_ = 0.0;
+        end_of_road_timestamp_ = std::nan("");
     }
 }
 
@@ -101,7 +101,7 @@ void Object::SetOffRoad(bool state, double time)
     }
     else
     {
-        off_road_timestamp_ = 0.0;
+        off_road_timestamp_ = std::nan("");
     }
 }
 
@@ -113,7 +113,7 @@ void Object::SetStandStill(bool state, double time)
     }
     else
     {
-        stand_still_timestamp_ = 0.0;
+        stand_still_timestamp_ = std::nan("");
     }
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 69196ae..175e100 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -326,7 +326,7 @@ namespace scenarioengine
         void SetEndOfRoad(bool state, double time = 0.0);
         bool IsEndOfRoad() const
         {
-            return end_of_road_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(end_of_road_timestamp_);
         }
         double GetEndOfRoadTimestamp() const
         {
@@ -335,7 +335,7 @@ namespace scenarioengine
         void SetOffRoad(bool state, double time = 0.0);
         bool IsOffRoad() const
         {
-            return off_road_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(off_road_timestamp_);
         }
         double GetOffRoadTimestamp() const
         {
@@ -344,7 +344,7 @@ namespace scenarioengine
         void SetStandStill(bool state, double time = 0.0);
         bool IsStandStill() const
         {
-            return stand_still_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(stand_still_timestamp_);
         }
         bool IsActive() const
         {
-- 
2.43.0


From 7707591b6eb80b7ba48fc7545a770613ba7cf701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:43 +0000
Subject: [PATCH 18/71] fix: heading of a reversing vehicle during a lane
 change over distance

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 8025ed1..dd58548 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -978,7 +978,7 @@ void LatLaneChangeAction::Step(double simTime, double dt)
         delta_long = sqrt(pow(step_len, 2.0) / (1.0 + pow(rate, 2.0)));
         transition_.Step(delta_long);
         offset_agnostic   = transition_.Evaluate();
-        heading_agnostic_ = atan(rate);  // heading for the step movement
+        heading_agnostic_ = SIGN(object_->speed_) * atan(rate);  // heading for the step movement
     }
     else
     {
-- 
2.43.0


From aa5ae5a0baedc19cea379f7c2233d3e570aa7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:43 +0000
Subject: [PATCH 19/71] fix: a lane offset action does not set the speed of a
 standing vehicle

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index dd58548..07900e5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1140,6 +1140,12 @@ void LatLaneOffsetAction::Step(double simTime, double dt)
 
     object_->dirty_.SetBits(Object::DirtyBit::LATERAL);
 
+    if (!object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)))
+    {
+        // prevent speed from being set based on the lateral motion, e.g. making a standing vehicle drive
+        object_->dirty_.SetBits(Object::DirtyBit::SPEED);
+    }
+
     transition_.Step(dt);
 }
 
-- 
2.43.0


From 9f4c2d0662d679944ce143829182769daf874901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:23 +0000
Subject: [PATCH 20/71] fix: keep driving direction when the lateral speed of a
 lane change equals the speed

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 07900e5..af01112 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -958,7 +958,9 @@ void LatLaneChangeAction::Step(double simTime, double dt)
             // requested delta lateral motion is less than total step length
             transition_.Step(dt);
             offset_agnostic   = transition_.Evaluate();
-            heading_agnostic_ = GetAngleInInterval2PI(atan2(SIGN(object_->speed_) * SIGN(rate) * delta_lat, delta_long));
+            // limit heading to avoid ambiguous driving direction when the motion is (almost) purely lateral
+            heading_agnostic_ =
+                GetAngleInInterval2PI(atan2(SIGN(object_->speed_) * SIGN(rate) * delta_lat, MAX(delta_long, step_len * SMALL_NUMBER)));
         }
         else
         {
-- 
2.43.0


From 67f2bfb98539cc23eed07a781191769271ed0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 21/71] fix: call each registered object callback once, with
 its own user data

---
 .../Libraries/esminiLib/esminiLib.cpp         | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index de25a54..be511ef 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -10,6 +10,7 @@
  * https://sites.google.com/view/simulationscenarios
  */
 
+#include <list>
 #include <string>
 #include <clocale>
 
@@ -54,7 +55,7 @@ typedef struct
     void *data;
 } SE_ObjCallback;
 
-static std::vector<SE_ObjCallback> objCallback;
+static std::list<SE_ObjCallback> objCallback;  // list to ensure that elements are not relocated
 
 // List of 3D models populated from any found found model_ids.txt file
 static std::map<int, std::string> entity_model_map_;
@@ -80,6 +81,7 @@ static void resetScenario(void)
     args_v.clear();
 
     // Reset (global) callbacks
+    objCallback.clear();
     OSCCondition::conditionCallback        = nullptr;
     StoryBoardElement::stateChangeCallback = nullptr;
 
@@ -2435,25 +2437,25 @@ extern "C"
 
     void objCallbackFn(scenarioengine::Object *obj, void *my_data)
     {
-        for (size_t i = 0; i < objCallback.size(); i++)
-        {
-            if (objCallback[i].id == obj->GetId())
-            {
-                SE_ScenarioObjectState se_state;
-                copyStateFromScenarioObject(&se_state, *obj);
-                objCallback[i].func(&se_state, my_data);
-            }
-        }
+        SE_ObjCallback        *cb = static_cast<SE_ObjCallback *>(my_data);
+        SE_ScenarioObjectState se_state;
+        copyStateFromScenarioObject(&se_state, *obj);
+        cb->func(&se_state, cb->data);
     }
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            return;
+        }
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-        cb.data = nullptr;
+        cb.data = user_data;
         objCallback.push_back(cb);
-        player->RegisterObjCallback(object_id, objCallbackFn, user_data);
+        player->RegisterObjCallback(object_id, objCallbackFn, &objCallback.back());
     }
 
     SE_DLL_API void SE_RegisterConditionCallback(void (*fnPtr)(const char *name, double timestamp))
-- 
2.43.0


From 1092a4d9934d2a8242cec409b73e4dfed900eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 22/71] fix: snap lane types and lock on lane refer to the
 object id, not to an index

---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index be511ef..ef7d6f8 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1381,15 +1381,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1402,14 +1395,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 9d7319fa707fa39cecd397cce12b188761eef0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 23/71] fix: unique default name of objects added without a
 name

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index ef7d6f8..40d0aec 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1136,7 +1136,7 @@ extern "C"
                 object->category_    = object_category;
                 object->role_        = static_cast<scenarioengine::Object::Role>(object_role);
                 object->boundingbox_ = bb;
-                object->name_        = (object_name == nullptr) ? "obj_" + std::to_string(object->id_) : object_name;
+                object->name_        = (object_name == nullptr) ? "" : object_name;
 
                 if (model_3d != nullptr && strlen(model_3d) > 0)
                 {
@@ -1163,6 +1163,12 @@ extern "C"
                 }
 
                 player->scenarioEngine->entities_.addObject(object, true);
+
+                if (object_name == nullptr)
+                {
+                    // create name from the id, now that it is assigned
+                    object->name_ = "obj_" + std::to_string(object->id_);
+                }
             }
             else
             {
-- 
2.43.0


From f85fb33e22b3599cf6f1667365aa47330d5b21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 24/71] fix: reported lateral lane position refers to the given
 lane and leaves the longitudinal motion alone

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 40d0aec..3e0ed36 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1293,15 +1293,14 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
-        obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
+        obj->dirty_.SetBits(Object::DirtyBit::LATERAL);
 
         return 0;
     }
-- 
2.43.0


From f82856b7a5af5b16bfe130f7a1f3d273dc008686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 25/71] fix: add and delete entity actions without effect
 complete instead of keeping their event running

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 8de1d88..a421e0c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -245,6 +245,7 @@ void AddEntityAction::Start(double simTime)
     if (entities_->activateObject(entity_) != 0)
     {
         LOG_WARN("AddEntityAction: Entity already active. Skipping action.");
+        OSCAction::Start(simTime);
         return;
     }
 
@@ -279,6 +280,7 @@ void DeleteEntityAction::Start(double simTime)
     if (entities_->deactivateObject(entity_) != 0)
     {
         LOG_WARN("DeleteEntityAction: Entity already deactivated. Skipping action.");
+        OSCAction::Start(simTime);
         return;
     }
 
-- 
2.43.0


From b179ce18deeeff674674a4ec9f973b543faf4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:13 +0000
Subject: [PATCH 26/71] fix: an entity added at a new position has not moved
 there

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index a421e0c..ec13706 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -250,6 +250,7 @@ void AddEntityAction::Start(double simTime)
     }
 
     entity_->pos_.TeleportTo(pos_);
+    entity_->dirty_.SetBits(Object::DirtyBit::TELEPORT);
 
     if (!entity_->TowVehicle() && entity_->TrailerVehicle())
     {
-- 
2.43.0


From a715d254610a1463614f3d560a9faec1bb1b5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:34 +0000
Subject: [PATCH 27/71] fix: parameters declared in a maneuver or environment
 do not leak out of it

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp     | 4 +++-
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..e399ed2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,8 +19,10 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
+
+    // the assignments of a catalog reference concern only the declarations of the referred entry
+    catalog_param_assignments.clear();
 }
 
 void Parameters::parseGlobalParameterDeclarations(pugi::xml_node osc_root)
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..e8a853b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5220,6 +5220,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 {
     maneuver->SetName(parameters.ReadAttribute(maneuverNode, "name"));
 
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node maneuverChild = maneuverNode.first_child(); maneuverChild; maneuverChild = maneuverChild.next_sibling())
     {
         std::string maneuverChildName(maneuverChild.name());
@@ -5365,6 +5367,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
             maneuver->event_.push_back(event);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
@@ -5564,6 +5568,8 @@ static void SelectCloudState(scenarioengine::CloudState &state, const std::strin
 
 void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvironment &env)
 {
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node envChild : xml_node.children())
     {
         std::string envChildName(envChild.name());
@@ -5761,4 +5767,6 @@ void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvi
             LOG_WARN("Not valid environment attribute name:{}", envChildName);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
-- 
2.43.0


From d589967c5a9495874bb77abb38fbeee046fada5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:34 +0000
Subject: [PATCH 28/71] fix: a local parameter shadows a global one also when
 the latter was set from outside

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index e399ed2..4ce3dc3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -570,7 +570,7 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
         auto pos = std::find_if(pd->Parameter.begin(), pd->Parameter.end(), [&param](const auto& p) { return p.name == param.name; });
         if (pos != pd->Parameter.end())
         {
-            if (pos->dirty)
+            if (pos->dirty && paramDeclarationsSize_.empty())  // only global parameters can be set from outside
             {
                 LOG_WARN("Parameter value {} updated from {} to {}", pos->name, param.value._string, pos->value._string);
                 continue;
-- 
2.43.0


From 711d638365d6ded809485860f4443c9f86c9fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:08 +0000
Subject: [PATCH 29/71] fix: recognise operator names and boolean literals of
 expressions as words

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp | 55 ++++++++++++++-----
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 4ce3dc3..ebd64b8 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -14,6 +14,8 @@
 #include "ScenarioReader.hpp"
 #include "simple_expr.h"
 #include "logger.hpp"
+#include <cctype>
+#include <map>
 
 using namespace scenarioengine;
 
@@ -399,14 +401,39 @@ std::string Parameters::ResolveParametersInString(std::string str)
     return str;
 }
 
-static void ReplaceStringInPlace(std::string& subject, const std::string& search, const std::string& replace)
+// Convert OpenSCENARIO operator names and boolean literals, when standing as separate words, to the notation of the expression evaluator
+static std::string ConvertExpressionWords(const std::string& expr)
 {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos)
+    static const std::map<std::string, std::string> words = {{"not", "!"}, {"and", "&&"}, {"or", "||"}, {"true", "1"}, {"false", "0"}};
+
+    std::string result;
+    for (size_t i = 0; i < expr.size();)
     {
-        subject.replace(pos, search.length(), replace);
-        pos += replace.length();
+        size_t end = i;
+        while (end < expr.size() && (isalnum(static_cast<unsigned char>(expr[end])) || expr[end] == '_' || expr[end] == '.'))
+        {
+            end++;
+        }
+
+        if (end == i)
+        {
+            result += expr[i++];
+        }
+        else
+        {
+            std::string word = expr.substr(i, end - i);
+            auto        it   = words.find(word);
+            result += it != words.end() ? it->second : word;
+            i = end;
+
+            while (word == "not" && i < expr.size() && isspace(static_cast<unsigned char>(expr[i])))
+            {
+                i++;  // the operand follows directly on a unary operator
+            }
+        }
     }
+
+    return result;
 }
 
 // std::string ReadAttributeFrom
@@ -441,14 +468,16 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                     expr = ResolveParametersInString(expr);  // replace parameters by their values
 
                     // Convert from OpenSCENARIO 1.1 operator names to expr op names
-                    ReplaceStringInPlace(expr, "not ", "!");
-                    ReplaceStringInPlace(expr, "not(", "!(");
-                    ReplaceStringInPlace(expr, "and ", "&& ");
-                    ReplaceStringInPlace(expr, "or ", "|| ");
-                    ReplaceStringInPlace(expr, "true ", "1 ");
-                    ReplaceStringInPlace(expr, "false ", "0 ");
-
-                    ExprReturnStruct rs = eval_expr(expr.c_str());
+                    std::string converted = ConvertExpressionWords(expr);
+                    bool        literal   = expr == "true" || expr == "false";
+
+                    ExprReturnStruct rs = eval_expr(literal ? expr.c_str() : converted.c_str());
+                    if (rs.type == EXPR_RETURN_STRING && !literal && converted != expr)
+                    {
+                        // string, there are no operators or boolean values in it
+                        clear_expr_result(&rs);
+                        rs = eval_expr(expr.c_str());
+                    }
                     if (rs.type == EXPR_RETURN_UNDEFINED && isnan(rs._double))
                     {
                         LOG_ERROR_AND_QUIT("Failed to evaluate the expression : {}\n", attr.value());
-- 
2.43.0


From d75e532fb140dca02a890863051d9b04d4567cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:29 +0000
Subject: [PATCH 30/71] fix: boolean parameters and variables take the value of
 a boolean expression

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index ebd64b8..9e12494 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,6 +19,12 @@
 
 using namespace scenarioengine;
 
+// Boolean expressions evaluate to a number
+static bool StringToBool(const std::string& value)
+{
+    return value == "true" || (value != "false" && strtod(value) != 0.0);
+}
+
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
@@ -306,7 +312,8 @@ int Parameters::setParameterValueByString(std::string name, std::string value)
     }
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL)
     {
-        ps->value._bool = (value == "true" ? true : false);
+        ps->value._bool   = StringToBool(value);
+        ps->value._string = ps->value._bool ? "true" : "false";
     }
     else if (ps->type != OSCParameterDeclarations::ParameterType::PARAM_TYPE_STRING)
     {
@@ -580,8 +587,9 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
                 LOG_WARN("INFO: bool type should renamed into boolean - accepting bool this time.");
             }
 
-            param.type        = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
-            param.value._bool = param.value._string == "true" ? true : false;
+            param.type          = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
+            param.value._bool   = StringToBool(param.value._string);
+            param.value._string = param.value._bool ? "true" : "false";
         }
         else if (type_str == "string")
         {
-- 
2.43.0


From fdfc56b6be52fb915897bac09dd63d9344e2e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:53 +0000
Subject: [PATCH 31/71] fix: loading a parameter distribution replaces the
 previous one, a faulty one leaves nothing

---
 .../OSCTypeDefs/OSCParameterDistribution.cpp        | 13 +++++++++++++
 .../OSCTypeDefs/OSCParameterDistribution.hpp        |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
index ee87ee5..f640c13 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
@@ -40,6 +40,19 @@ OSCParameterDistribution::~OSCParameterDistribution()
 }
 
 int OSCParameterDistribution::Load(std::string filename)
+{
+    Reset();  // replace any distribution loaded earlier
+
+    int retval = LoadFile(filename);
+    if (retval != 0)
+    {
+        Reset();  // leave nothing of a faulty distribution
+    }
+
+    return retval;
+}
+
+int OSCParameterDistribution::LoadFile(std::string filename)
 {
     std::vector<std::string> file_name_candidates;
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.hpp
index 940b397..d7044b2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.hpp
@@ -34,6 +34,8 @@ namespace scenarioengine
         int                                                        requested_index_;
         pugi::xml_document                                         doc_;
 
+        int LoadFile(std::string filename);
+
     public:
         OSCParameterDistribution()
         {
-- 
2.43.0


From d329defdd9d5ef66decb8dd3d49a665494f6dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:53 +0000
Subject: [PATCH 32/71] fix: refuse a distribution range whose step width is
 not positive instead of looping for ever

---
 .../ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
index f640c13..0a4d1c4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
@@ -229,6 +229,11 @@ int OSCParameterDistribution::LoadFile(std::string filename)
                     double lower_limit = std::atof(range.attribute("lowerLimit").value());
                     double upper_limit = std::atof(range.attribute("upperLimit").value());
 
+                    if (step_width < SMALL_NUMBER)
+                    {
+                        LOG_ERROR("Distribution range invalid step width {}", step_width);
+                        return -1;
+                    }
                     if (upper_limit < lower_limit)
                     {
                         LOG_ERROR("Distribution range invalid range {:.2f}..{:.2f}", lower_limit, upper_limit);
-- 
2.43.0


From 88a3b4c87e9f3aaf536b2c3cdd4174161b9d0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:53 +0000
Subject: [PATCH 33/71] fix: report a missing parameter distribution file
 instead of throwing, also after a run without distribution

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp        | 4 +++-
 .../ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..4156f89 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1649,7 +1649,9 @@ int ScenarioPlayer::Init()
                 dist.IsParamDist = false;
             }
 
-            if (LoadParameterDistribution(strParamDist) != 0)
+            int load_result  = LoadParameterDistribution(strParamDist);
+            dist.IsParamDist = true;
+            if (load_result != 0)
             {
                 return -1;
             }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
index 0a4d1c4..f6faa76 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
@@ -92,7 +92,7 @@ int OSCParameterDistribution::LoadFile(std::string filename)
             {
                 LOG_INFO("   {}\n", file_name_candidates[j]);
             }
-            LOG_WARN("continue without road description\n");
+            return -1;
         }
         else
         {
-- 
2.43.0


From 88c7b35a2b24fd6c259526307f704d5c9ae5419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:43 +0000
Subject: [PATCH 34/71] fix: recover the frame times of recordings with mixed
 timesteps and frames without changes

---
 .../Applications/replayer/Replay.cpp          | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..a9d9a9d 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -885,7 +885,28 @@ void Replay::FillInTimestamps()
         double current_dt = dts_.values.front().second;
         FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
     }
-    // Mixed timesteps in the scenario
+    // Mixed timesteps in the scenario, no ghost restarts
+    else if (restart_timestamps_.empty())
+    {
+        // Frames are left out only when nothing changed, the timestep included. Hence the frames missing between two timestamps
+        // have the timestep of the first one, and the step to the second one is the timestep of the second one
+        size_t j = 0;
+        for (size_t i = 1; i < timestamps_.size(); i++)
+        {
+            double current_dt = dts_.values[j].second;
+            while (j + 1 < dts_.values.size() && dts_.values[j + 1].first < timestamps_[i] + SMALL_NUMBER)
+            {
+                j++;
+            }
+            double end_time = timestamps_[i] - dts_.values[j].second;
+            if (end_time > filled.back() + SMALL_NUMBER)
+            {
+                FillEmptyTimestamps(filled.back(), end_time, current_dt, filled);
+            }
+            filled.emplace_back(timestamps_[i]);
+        }
+    }
+    // Mixed timesteps in the scenario, with ghost restarts
     else
     {
         size_t i = 0;
-- 
2.43.0


From 2c8a958bdb4a23739bf3d21f03b06c2794165050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:58 +0000
Subject: [PATCH 35/71] fix: show the last of several values recorded for the
 same time

---
 EnvironmentSimulator/Applications/replayer/Replay.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.hpp b/EnvironmentSimulator/Applications/replayer/Replay.hpp
index 0ff4bc9..a75213b 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.hpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.hpp
@@ -51,12 +51,7 @@ namespace scenarioengine
 
             size_t idx = last_index;
 
-            if (NEAR_NUMBERS(last_time, time))
-            {
-                return values[idx].second;
-            }
-
-            if (time >= values[idx].first)  // moving forward
+            if (time + SMALL_NUMBER >= values[idx].first)  // moving forward
             {
                 while (idx + 1 < values.size() && values[idx + 1].first <= time + SMALL_NUMBER)
                 {
-- 
2.43.0


From ec74bb58cc8280cc55ab81ccbb7f4ce6002f35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:59 +0000
Subject: [PATCH 36/71] fix: step to the frame next to the current replay time,
 also from between two frames

---
 .../Applications/replayer/Replay.cpp                | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index a9d9a9d..36655bb 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -1191,11 +1191,11 @@ void Replay::GoToTime(double target_time, bool stop_at_next_frame)
     {
         if (target_time > time_)  // Looking ahead, stopping as soon as we find time greater than current time
         {
-            size_t next_index = index_ + 1;
+            auto next = std::upper_bound(timestamps_.begin(), timestamps_.end(), time_ + SMALL_NUMBER);
             // Subtract small number so we don't accidentally step ahead of intended time
-            if (next_index < timestamps_.size() && target_time >= timestamps_[next_index] - SMALL_NUMBER)
+            if (next != timestamps_.end() && target_time >= *next - SMALL_NUMBER)
             {
-                index_ = static_cast<unsigned int>(next_index);
+                index_ = static_cast<unsigned int>(std::distance(timestamps_.begin(), next));
                 time_  = timestamps_[index_];
             }
             else
@@ -1212,10 +1212,11 @@ void Replay::GoToTime(double target_time, bool stop_at_next_frame)
         }
         else if (target_time < time_)  // Same for backwards, but we stop when we find a timestamp less than current time
         {
-            if (index_ > 0 && target_time <= timestamps_[index_ - 1])
+            auto current = std::lower_bound(timestamps_.begin(), timestamps_.end(), time_ - SMALL_NUMBER);
+            if (current != timestamps_.begin() && target_time <= *std::prev(current))
             {
-                index_--;
-                time_ = timestamps_[index_];
+                index_ = static_cast<unsigned int>(std::distance(timestamps_.begin(), std::prev(current)));
+                time_  = timestamps_[index_];
             }
             else
             {
-- 
2.43.0


From 45e48eb1f154b1a75f202d0267354536a0acf72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 37/71] fix: a frame at the very start or stop time of the
 replay is within its range

---
 EnvironmentSimulator/Applications/replayer/Replay.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 36655bb..970e740 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -1231,11 +1231,11 @@ void Replay::GoToTime(double target_time, bool stop_at_next_frame)
             }
         }
     }
-    if (time_ > GetStopTime())
+    if (time_ > GetStopTime() + SMALL_NUMBER)
     {
         GoToEnd();
     }
-    else if (time_ < GetStartTime())
+    else if (time_ < GetStartTime() - SMALL_NUMBER)
     {
         GoToStart();
     }
@@ -1292,7 +1292,7 @@ void Replay::GoToPreviousFrame()
         --it;  // Move to the previous timestamp
         index_ = static_cast<unsigned int>(std::distance(timestamps_.begin(), it));
         time_  = *it;
-        if (time_ < startTime_)
+        if (time_ < startTime_ - SMALL_NUMBER)
         {
             GoToStart();
         }
-- 
2.43.0


From 686d40325c23b1c25e5c37bb12752ae5b7e2453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:03 +0000
Subject: [PATCH 38/71] fix: time headway and time to collision with rule all
 depended on the position of an inactive entity in the list

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 8a6abe3..47a829c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -740,12 +740,12 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive() || (object_ && !object_->IsActive()))
         {
             continue;
         }
+        result = false;
 
         if (trigObj->Distance(object_, cs_, relDistType_, freespace_, rel_dist) != 0)
         {
@@ -796,12 +796,12 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
             continue;
         }
+        result = false;
 
         if (object_ != nullptr)
         {
-- 
2.43.0


From afddd332f3e79fb6514affa814f0dabe500d5fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:03 +0000
Subject: [PATCH 39/71] fix: relative clearance condition was triggered by
 inactive entities

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 47a829c..f60b874 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1626,8 +1626,13 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
-        Object*            entityObject = triggering_entities_.entity_[i].object_;
-        roadmanager::Road* road         = odr->GetRoadById(entityObject->pos_.GetTrackId());
+        Object* entityObject = triggering_entities_.entity_[i].object_;
+        if (!entityObject->IsActive())
+        {
+            continue;
+        }
+
+        roadmanager::Road* road = odr->GetRoadById(entityObject->pos_.GetTrackId());
 
         if (road == nullptr)
         {
-- 
2.43.0


From bcd6549e49dea2e341961cbe88a4ed2dba16836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:27 +0000
Subject: [PATCH 40/71] fix: double parameters set by the application lost
 precision when referred to

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 9e12494..d78bfe2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,6 +19,13 @@
 
 using namespace scenarioengine;
 
+// Decimal notation without loss of precision. Values that would need an exponent, which is not supported in expressions, are limited to six decimals.
+static std::string DoubleToString(double value)
+{
+    std::string str = fmt::format("{}", value);
+    return str.find('e') == std::string::npos ? str : std::to_string(value);
+}
+
 // Boolean expressions evaluate to a number
 static bool StringToBool(const std::string& value)
 {
@@ -147,7 +154,7 @@ int Parameters::setParameterValue(std::string name, const void* value)
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_DOUBLE)
     {
         ps->value._double = *(reinterpret_cast<const double*>(value));
-        ps->value._string = std::to_string(ps->value._double);
+        ps->value._string = DoubleToString(ps->value._double);
     }
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_STRING)
     {
@@ -278,7 +285,7 @@ std::string Parameters::getParameterValueAsString(std::string name)
     }
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_DOUBLE)
     {
-        return std::to_string(ps->value._double);
+        return DoubleToString(ps->value._double);
     }
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL)
     {
@@ -352,7 +359,7 @@ int Parameters::setParameterValue(std::string name, double value)
     }
 
     ps->value._double = value;
-    ps->value._string = std::to_string(ps->value._double);
+    ps->value._string = DoubleToString(ps->value._double);
     ps->dirty         = true;
 
     return 0;
-- 
2.43.0


From 63ff5caaf4020331ab6b5de4c3f2acc40f94a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:57 +0000
Subject: [PATCH 41/71] fix: wheel requests without a scenario, or for a wheel
 that does not exist, were not refused

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 3e0ed36..490b751 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2150,9 +2150,9 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (getObjectById(object_id, obj) != -1 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
         {
             return static_cast<int>(static_cast<Vehicle *>(obj)->GetWheelData().size());
         }
@@ -2162,9 +2162,10 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (getObjectById(object_id, obj) != -1 && wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE &&
+            static_cast<unsigned int>(wheel_index) < static_cast<Vehicle *>(obj)->GetWheelData().size())
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
-- 
2.43.0


From 74fee07dcd7df4479140e6fd5a0ff2ba3f72b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:57 +0000
Subject: [PATCH 42/71] fix: SE_Init did not close an already running scenario

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 490b751..ca8d041 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -690,6 +690,11 @@ extern "C"
 
     SE_DLL_API int SE_Init(const char *oscFilename, int disable_ctrls, int use_viewer, int threads, int record)
     {
+        if (player != nullptr)
+        {
+            resetScenario();
+        }
+
 #ifndef _USE_OSG
         if (use_viewer)
         {
-- 
2.43.0


From 81958687eddc756ff72125d123177c7785710e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:34 +0000
Subject: [PATCH 43/71] fix: a step of zero length at a ghost restart never
 returned

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 4156f89..b5bbb80 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -183,7 +183,7 @@ void ScenarioPlayer::Draw()
 int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
 {
     int    retval        = 0;
-    double ghost_solo_dt = (GetFixedTimestep() < 0.0) ? 0.05 : GetFixedTimestep();
+    double ghost_solo_dt = (GetFixedTimestep() < SMALL_NUMBER) ? 0.05 : GetFixedTimestep();
 
     if (!IsPaused() || server_mode)
     {
-- 
2.43.0


From 3f357b3909e366869e1b825ae0d2580f6d30a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:21 +0000
Subject: [PATCH 44/71] fix: collisions of objects with reference points far
 from their bounding boxes were missed

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 6a4cc62..fb268ab 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -423,7 +423,9 @@ bool Object::CollisionAndRelativeDistLatLong(Object* target, double* distLat, do
     double dist           = fabs(this->pos_.getRelativeDistance(target->pos_.GetX(), target->pos_.GetY(), x, y));
     double max_length     = this->boundingbox_.dimensions_.length_ + target->boundingbox_.dimensions_.length_;
     double max_width      = this->boundingbox_.dimensions_.width_ + target->boundingbox_.dimensions_.width_;
-    double dist_threshold = sqrt(max_length * max_length + max_width * max_width);
+    double max_offset     = hypot(this->boundingbox_.center_.x_, this->boundingbox_.center_.y_) +
+                        hypot(target->boundingbox_.center_.x_, target->boundingbox_.center_.y_);  // center offset from reference point
+    double dist_threshold = sqrt(max_length * max_length + max_width * max_width) + max_offset;
 
     if (dist > dist_threshold && distLong == nullptr && distLat == nullptr)
     {
-- 
2.43.0


From bb7d4df8d3ec0054a0396f3171592dfbd36ad1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 45/71] fix: the trajectory filter merged vertices that differ
 in heading

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 18bac7d..4c6eefa 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -12997,7 +12997,7 @@ bool PolyLineShape::VerticesUnique(const Vertex& a, const Vertex& b, double dist
     }
 
     if ((PointDistance2D(a.pos_->GetX(), a.pos_->GetY(), b.pos_->GetX(), b.pos_->GetY()) < dist_threshold + SMALL_NUMBER) &&
-        (GetAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
+        (GetAbsAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
     {
         return false;
     }
-- 
2.43.0


From 8f88f48ef4d39e5213c868b058e6f25086cf7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 46/71] fix: reversing entities jumped along timed trajectories
 in follow mode

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 4c6eefa..6c04141 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13095,7 +13095,7 @@ void PolyLineShape::CalculatePolyLine()
     }
 
     pline_.Reset(false);
-    double speed = initial_speed_;
+    double speed = fabs(initial_speed_);  // along the trajectory, also when reversing
 
     // Copy data from trajectory vertices to polyline
     for (size_t i = 0; i < vertex_.size(); i++)
@@ -13247,7 +13247,7 @@ void PolyLineShape::CalculatePolyLine()
         {
             if (i == 0)
             {
-                pline_.vertex_[i].speed   = initial_speed_;
+                pline_.vertex_[i].speed   = speed;
                 pline_.vertex_.back().acc = 0.0;
             }
             else
-- 
2.43.0


From 7b13407ad9148dbe4f35eb5d9e9e24c07f2589a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:09 +0000
Subject: [PATCH 47/71] fix: entities kept moving through the stand-still phase
 of a trajectory in follow mode

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 6c04141..32bbe36 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13273,8 +13273,9 @@ void PolyLineShape::CalculatePolyLine()
                 }
                 else
                 {
-                    // no movement, set speed and to zero
-                    speed = 0.0;
+                    // no movement, set speed to zero over the whole segment
+                    speed                       = 0.0;
+                    pline_.vertex_[i - 1].speed = speed;
                 }
                 pline_.vertex_[i - 1].acc = acc;
                 pline_.vertex_[i].speed   = speed;
-- 
2.43.0


From 6385e2ccee2417c4e18cd95ff34821d986fffa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:54 +0000
Subject: [PATCH 48/71] fix: wrong remaining distance and direction when
 leaving a timed trajectory

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index af01112..2464b64 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -538,8 +538,15 @@ void FollowTrajectoryAction::Step(double simTime, double dt)
         else if (timing_domain_ != TimingDomain::NONE && time_ + timeOffset > traj_->GetStartTime() + traj_->GetDuration() - SMALL_NUMBER)
         {
             // Move the remaning distance along road at current lane offset
+            // time passed since end of trajectory, in simulation time and within current time step
             double remaningTime = time_ + timeOffset - (traj_->GetStartTime() + traj_->GetDuration());
+            remaningTime        = MIN(timing_scale_ > SMALL_NUMBER ? remaningTime / timing_scale_ : remaningTime, dt);
             remaningDistance    = remaningTime * object_->speed_;
+            if (GetAbsAngleDifference(object_->pos_.GetH(), traj_->GetH()) > M_PI_2)
+            {
+                // entity is facing the other way, hence reversing along the trajectory
+                remaningDistance = -remaningDistance;
+            }
         }
 
         // Move the remainder of distance along the current heading
-- 
2.43.0


From 91c8425c017c1c6c7bfa92e371625e7ceb0348e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:54 +0000
Subject: [PATCH 49/71] fix: speed at the end of a trajectory with absolute
 timing and time offset

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 2464b64..3d31a45 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -611,7 +611,7 @@ void scenarioengine::FollowTrajectoryAction::Move(double simTime, double dt)
         object_->pos_.SetTrajectoryPosByTime(time_ + timeOffset + timing_offset_);
 
         if ((dt > SMALL_NUMBER) &&  // skip speed update if timestep is zero
-            (time_ + timeOffset < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
+            (time_ + timeOffset + timing_offset_ < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
         {
             // don't calculate and update actual speed when reached end of trajectory,
             // since the movement is based on remaining length of trajectory, not speed
-- 
2.43.0


From 30b0386ef0af741a822363615450f3364c4d0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:14 +0000
Subject: [PATCH 50/71] fix: AssignControllerAction activated the longitudinal
 domain for the lateral one and vice versa

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 3d31a45..9d0d693 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -758,7 +758,7 @@ void AssignControllerAction::Start(double simTime)
                 if (lat_activation_mode_ != ControlActivationMode::UNDEFINED || long_activation_mode_ != ControlActivationMode::UNDEFINED ||
                     light_activation_mode_ != ControlActivationMode::UNDEFINED || anim_activation_mode_ != ControlActivationMode::UNDEFINED)
                 {
-                    controller_->Activate({lat_activation_mode_, long_activation_mode_, light_activation_mode_, anim_activation_mode_});
+                    controller_->Activate({long_activation_mode_, lat_activation_mode_, light_activation_mode_, anim_activation_mode_});
                     LOG_INFO("Controller {} activated (lat {}, long {}, light {}, anim {}), domain mask=0x{}",
                              controller_->GetName(),
                              DomainActivation2Str(lat_activation_mode_),
-- 
2.43.0


From b8d66fc26315f16cdd175700548bb2142754da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 51/71] fix: assigning the default controller did not
 disconnect assigned controllers

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 9d0d693..f3fff78 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -776,8 +776,11 @@ void AssignControllerAction::Start(double simTime)
             }
         }
     }
-
-    OSCAction::Start(simTime);
+    else if (object_ != nullptr)
+    {
+        // default controller, disconnect any assigned controllers
+        object_->UnassignControllers();
+    }
 }
 
 scenarioengine::ActivateControllerAction::ActivateControllerAction(std::string           ctrl_name,
-- 
2.43.0


From 69512baa9fe599df50c671a4ec674f86c6896710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 52/71] fix: several controllers could be active on the same
 domain of an entity

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 108 ++++++++++--------
 1 file changed, 61 insertions(+), 47 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index f3fff78..48f1f54 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -742,44 +742,79 @@ void RandomRouteAction::ReplaceObjectRefs(Object* obj1, Object* obj2)
     }
 }
 
-void AssignControllerAction::Start(double simTime)
+// Deactivate any other controller active on the domain(s) which are about to be activated
+static void DeactivateConflictingControllers(Object*           object,
+                                             const Controller* controller,
+                                             const ControlActivationMode (&activation_mode)[static_cast<unsigned int>(ControlDomains::COUNT)],
+                                             int version_minor)
 {
-    if (controller_)
+    for (unsigned int i = 0; i < static_cast<unsigned int>(ControlDomains::COUNT); i++)
     {
-        if (object_ != nullptr)
+        ControlDomains domain = static_cast<ControlDomains>(i);
+        if (activation_mode[i] != ControlActivationMode::ON)
         {
-            object_->AssignController(controller_);
+            continue;
         }
 
-        if (controller_)
+        for (auto ctrl : object->controllers_)
         {
-            if (!controller_->Active())
+            if (ctrl == controller || !ctrl->IsActiveOnDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain))))
             {
-                if (lat_activation_mode_ != ControlActivationMode::UNDEFINED || long_activation_mode_ != ControlActivationMode::UNDEFINED ||
-                    light_activation_mode_ != ControlActivationMode::UNDEFINED || anim_activation_mode_ != ControlActivationMode::UNDEFINED)
-                {
-                    controller_->Activate({long_activation_mode_, lat_activation_mode_, light_activation_mode_, anim_activation_mode_});
-                    LOG_INFO("Controller {} activated (lat {}, long {}, light {}, anim {}), domain mask=0x{}",
-                             controller_->GetName(),
-                             DomainActivation2Str(lat_activation_mode_),
-                             DomainActivation2Str(long_activation_mode_),
-                             DomainActivation2Str(light_activation_mode_),
-                             DomainActivation2Str(anim_activation_mode_),
-                             controller_->GetActiveDomains());
-                }
+                continue;
+            }
+
+            if (version_minor >= 3)
+            {
+                LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
+                // from osc v1.3 onwards, deactivation is done per domain
+                ctrl->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
             }
             else
             {
-                LOG_INFO("Controller {} already active (domainmask 0x{}), should not happen when just assigned!",
-                         controller_->GetName(),
-                         controller_->GetActiveDomains());
+                // prior to osc v1.3 a controller can't be partly replaced, deactivate it completely
+                LOG_WARN("Deactivating ctrl {} conflicting on domain {} (< osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
+                ctrl->Deactivate();
             }
         }
     }
-    else if (object_ != nullptr)
+}
+
+void AssignControllerAction::Start(double simTime)
+{
+    OSCAction::Start(simTime);
+
+    if (object_ != nullptr)
     {
-        // default controller, disconnect any assigned controllers
-        object_->UnassignControllers();
+        if (controller_)
+        {
+            object_->AssignController(controller_);
+
+            if (lat_activation_mode_ != ControlActivationMode::UNDEFINED || long_activation_mode_ != ControlActivationMode::UNDEFINED ||
+                light_activation_mode_ != ControlActivationMode::UNDEFINED || anim_activation_mode_ != ControlActivationMode::UNDEFINED)
+            {
+                ControlActivationMode activation_mode[static_cast<unsigned int>(ControlDomains::COUNT)];
+                activation_mode[static_cast<unsigned int>(ControlDomains::DOMAIN_LONG)]  = long_activation_mode_;
+                activation_mode[static_cast<unsigned int>(ControlDomains::DOMAIN_LAT)]   = lat_activation_mode_;
+                activation_mode[static_cast<unsigned int>(ControlDomains::DOMAIN_LIGHT)] = light_activation_mode_;
+                activation_mode[static_cast<unsigned int>(ControlDomains::DOMAIN_ANIM)]  = anim_activation_mode_;
+
+                DeactivateConflictingControllers(object_, controller_, activation_mode, scenarioEngine_->GetScenarioReader()->GetVersionMinor());
+
+                controller_->Activate(activation_mode);
+                LOG_INFO("Controller {} activated (lat {}, long {}, light {}, anim {}), domain mask=0x{}",
+                         controller_->GetName(),
+                         DomainActivation2Str(lat_activation_mode_),
+                         DomainActivation2Str(long_activation_mode_),
+                         DomainActivation2Str(light_activation_mode_),
+                         DomainActivation2Str(anim_activation_mode_),
+                         controller_->GetActiveDomains());
+            }
+        }
+        else
+        {
+            // default controller, disconnect any assigned controllers
+            object_->UnassignControllers();
+        }
     }
 }
 
@@ -832,29 +867,8 @@ void ActivateControllerAction::Start(double simTime)
 
         if (controller_ != nullptr)
         {
-            // first deactivate any controller active on the requested domain(s)
-            for (unsigned int i = 0; i < static_cast<unsigned int>(ControlDomains::COUNT); i++)
-            {
-                Controller*    ctrl   = nullptr;
-                ControlDomains domain = static_cast<ControlDomains>(i);
-                if (activation_mode_[i] == ControlActivationMode::ON &&
-                    (ctrl = object_->GetControllerActiveOnDomainMask(ControlDomain2DomainMask(domain))) != nullptr)
-                {
-                    if (scenarioEngine_->GetScenarioReader()->GetVersionMinor() >= 3)
-                    {
-                        LOG_WARN("Deactivating ctrl {} on domain {} (>= osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
-                        // from osc v1.3 onwards, deactivation is done per domain
-                        ctrl->DeactivateDomains(static_cast<unsigned int>(ControlDomain2DomainMask(domain)));
-                    }
-                    else
-                    {
-                        // prior to osc v1.3 only one controller can be active, deactivate current active controller - which is also the only one
-                        LOG_WARN("Deactivating ctrl {} conflicting on domain {} (< osc v1.3)", ctrl->GetName(), ControlDomain2Str(domain));
-                        ctrl->Deactivate();
-                        break;
-                    }
-                }
-            }
+            // first deactivate any other controller active on the requested domain(s)
+            DeactivateConflictingControllers(object_, controller_, activation_mode_, scenarioEngine_->GetScenarioReader()->GetVersionMinor());
 
             if (controller_->Activate(activation_mode_) == 0)
             {
-- 
2.43.0


From 230b669a68de070ef42296735685d4b11854d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 53/71] fix: ActivateControllerAction never started nor ended
 without a controller to activate

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 48f1f54..905bbdf 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -836,6 +836,8 @@ scenarioengine::ActivateControllerAction::ActivateControllerAction(std::string
 
 void ActivateControllerAction::Start(double simTime)
 {
+    OSCAction::Start(simTime);
+
     if (object_->controllers_.size() == 0)
     {
         LOG_INFO("No controller assigned to object {}!", object_->name_);
@@ -877,8 +879,6 @@ void ActivateControllerAction::Start(double simTime)
                          controller_->GetName(),
                          ControlDomainMask2Str(controller_->GetActiveDomains()),
                          controller_->GetActiveDomains());
-                OSCAction::Start(simTime);
-                End();  // action ends immediately
             }
             else
             {
@@ -886,6 +886,8 @@ void ActivateControllerAction::Start(double simTime)
             }
         }
     }
+
+    End();  // action ends immediately
 }
 
 void ActivateControllerAction::End()
-- 
2.43.0


From 3c2466fd81a52e416ac9d63f78ea09d10eecb5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 54/71] fix: lateral actions started or running under a
 controller jumped once it was deactivated

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 905bbdf..b4d4352 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -905,6 +905,7 @@ void LatLaneChangeAction::Start(double simTime)
     if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
+        OSCAction::End();
         return;
     }
 
@@ -953,6 +954,7 @@ void LatLaneChangeAction::Step(double simTime, double dt)
     if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
+        OSCAction::End();
         return;
     }
 
@@ -1098,6 +1100,7 @@ void LatLaneOffsetAction::Start(double simTime)
     if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
+        OSCAction::End();
         return;
     }
 
@@ -1134,6 +1137,7 @@ void LatLaneOffsetAction::Step(double simTime, double dt)
     if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LAT)))
     {
         // lateral motion controlled elsewhere
+        OSCAction::End();
         return;
     }
 
-- 
2.43.0


From 8d23bdd9d6fda1c1207fd228d66c0f654dd6c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 55/71] fix: a light is lit if any of its colour channels is

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b4d4352..c9e3002 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3173,6 +3173,8 @@ void LightStateAction::SetVehicleLightState(Object::VehicleLightStatus* vehicleL
 {
     luminousity = CLAMP(luminousity, 0.0, MAX_INTENSITY_LUM);
 
+    vehicleLight->emitting = false;
+
     for (size_t i = 0; i < RGB_ARRAY_SIZE_; i++)
     {
         // scale luminosity non linear to achieve visible and somewhat natural distribution in the candela span [0,12000]
@@ -3186,10 +3188,6 @@ void LightStateAction::SetVehicleLightState(Object::VehicleLightStatus* vehicleL
         {
             vehicleLight->emitting = true;
         }
-        else
-        {
-            vehicleLight->emitting = false;
-        }
     }
 
     vehicleLight->luminousIntensity = luminousity;
-- 
2.43.0


From 6be8a2dc9e401de2b825b6380d8f501b5eaba4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 56/71] fix: a light reaches its state also if the last frame
 goes beyond the transition time

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index c9e3002..b4f57f3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3252,6 +3252,7 @@ void LightStateAction::Step(double simTime, double dt)
 {
     (void)simTime;
     bool end_action = false;
+    bool completing = false;
 
     bool instantTransition = NEAR_NUMBERS(transitionTime_, 0.0);
     if ((instantTransition || transitionTimer_ > transitionTime_ - SMALL_NUMBER) && !transitioned_)
@@ -3274,14 +3275,15 @@ void LightStateAction::Step(double simTime, double dt)
         }
 
         transitioned_ = true;  // Make sure we only enter this if-statement once
+        completing    = true;
     }
 
-    if (transitionTimer_ <= transitionTime_ + SMALL_NUMBER)  // We enter here at least once, always
+    if (completing || transitionTimer_ <= transitionTime_ + SMALL_NUMBER)  // We enter here at least once, always
     {
         double transitionFactor = 1.0;
         if (transitionTime_ != 0.0)
         {
-            transitionFactor = transitionTimer_ / transitionTime_;
+            transitionFactor = MIN(transitionTimer_ / transitionTime_, 1.0);
         }
         // for loop here on struct containing data of previous state
         for (auto& lightState : vehicleLights_)
-- 
2.43.0


From 7bb84566b98f4309c58e433c12f58c763f733738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 57/71] fix: a light that is reset does not shine any more

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b4f57f3..747af41 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3423,6 +3423,9 @@ void LightStateAction::ResetLight(Object::VehicleLightStatus& light, Object::Veh
     light.emission[0] = 0.0;
     light.emission[1] = 0.0;
     light.emission[2] = 0.0;
+
+    light.luminousIntensity = 0.0;
+    light.emitting          = false;
 }
 
 void LightStateAction::SetInitState()
-- 
2.43.0


From 13089c8a026844b31c602516a60560782ca8befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 58/71] fix: an indicator that is fading goes out when the
 other one starts

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 747af41..d38be4e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -3398,7 +3398,8 @@ void LightStateAction::HandleConflictingLights(const Object::VehicleLightType& t
             break;
         case Object::VehicleLightType::INDICATOR_LEFT:
             ResetLight(object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::WARNING_LIGHTS)]);
-            if (object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_RIGHT)].mode != Object::VehicleLightMode::UNKNOWN)
+            if (object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_RIGHT)].mode != Object::VehicleLightMode::UNKNOWN ||
+                object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_RIGHT)].emitting)
             {
                 ResetLight(object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_RIGHT)],
                            Object::VehicleLightMode::OFF);  // Can't be on at the same time in OSI
@@ -3406,7 +3407,8 @@ void LightStateAction::HandleConflictingLights(const Object::VehicleLightType& t
             break;
         case Object::VehicleLightType::INDICATOR_RIGHT:
             ResetLight(object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::WARNING_LIGHTS)]);
-            if (object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_LEFT)].mode != Object::VehicleLightMode::UNKNOWN)
+            if (object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_LEFT)].mode != Object::VehicleLightMode::UNKNOWN ||
+                object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_LEFT)].emitting)
             {
                 ResetLight(object_->vehLghtStsList[static_cast<size_t>(Object::VehicleLightType::INDICATOR_LEFT)],
                            Object::VehicleLightMode::OFF);  // Can't be on at the same time in OSI
-- 
2.43.0


From 977cd8d6bee8135222d9f4042632a2c6d8b0c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 59/71] fix: road manager functions read outside of the
 positions for negative handles

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 8d3f2f2..9c1ff35 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -509,7 +509,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -550,7 +550,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -575,7 +575,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -593,7 +593,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -611,7 +611,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -651,7 +651,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -680,7 +680,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -707,7 +707,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -732,7 +732,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -750,7 +750,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -769,7 +769,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -789,7 +789,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -814,7 +814,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -824,7 +824,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -834,7 +834,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -922,7 +922,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleB < 0 || handleA >= static_cast<int>(position.size()) ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
-- 
2.43.0


From dd8bd0ebe59cee39cec36358633e065e9953c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:59 +0000
Subject: [PATCH 60/71] fix: the banking slope of the previous road tilted
 positions on roads without superelevation

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 32bbe36..e5bc68c 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3507,7 +3507,8 @@ bool Road::UpdateRollByS(double s, double* roadSuperElevationPrim, double* roll,
     }
     else
     {
-        *roll = 0.0;
+        *roll                   = 0.0;
+        *roadSuperElevationPrim = 0.0;
     }
 
     return false;
-- 
2.43.0


From 40088fe0c7143f4600627891909e84ade5d43b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:59 +0000
Subject: [PATCH 61/71] fix: poly3 geometries stopped at the last full 10 m
 instead of their end

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index e5bc68c..0787bae 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1072,7 +1072,7 @@ void Poly3::EvaluateDSLocal(double ds, double& u, double& v) const
     else if (ds > SMALL_NUMBER)
     {
         double distTmp = 0;
-        for (double uTmp = 0; uTmp < length_; uTmp += steplen)
+        for (double uTmp = 0; uTmp < length_ + steplen; uTmp += steplen)
         {
             double vTmp  = poly3_.Evaluate(uTmp);
             double delta = sqrt((uTmp - u) * (uTmp - u) + (vTmp - v) * (vTmp - v));
-- 
2.43.0


From ba0205ebf0ad51d5de5bad1c1bf1e0484f3c3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:14 +0000
Subject: [PATCH 62/71] fix: positions on pitched and banked roads were looked
 up with a relative z taken as absolute

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 0787bae..1835489 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9162,6 +9162,8 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 // Also require that the point is on the positive side of the first vector
                 inside = (inside && s_norm >= 0.0);
 
+                double z_input = CheckBitsEqual(mode, PosMode::Z_MASK, PosMode::Z_REL) ? GetZ() + z3 : z3;
+
                 // Find out distance from the point projected at (extended) osi segment. We're only interested in the orthogonal distance
                 // distTmp = DistanceFromPointToLine2D(x3, y3, v[l2].p.x(), v[l2].p.y(), v[l1].p.x(), v[l1].p.y(), 0, 0) -
                 // road->GetLaneOffset(s_norm);
@@ -9172,7 +9174,7 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 else
                 {
                     // road is pitched and banked - we need to consider normal not perpendicular to 2D projection of segment
-                    distTmp = PointToLineDistance3DSigned(x3, y3, z3, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z);
+                    distTmp = PointToLineDistance3DSigned(x3, y3, z_input, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z);
                 }
 
                 // Find closest point of the two
@@ -9209,8 +9211,6 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
 
                 weightedDist = distTmp;
 
-                double z_input = CheckBitsEqual(mode, PosMode::Z_MASK, PosMode::Z_REL) ? GetZ() + z3 : z3;
-
                 if (fabs(z_input - z) > 2.0)
                 {
                     // Add threshold for considering z - to avoid noise in co-planar distance calculations
-- 
2.43.0


From 400499bcc068ef3a7e26b8235c31bcf8d7784d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:33 +0000
Subject: [PATCH 63/71] fix: points on one side of pitched and banked roads
 counted as on them at any distance

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 1835489..633d76d 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9174,7 +9174,7 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 else
                 {
                     // road is pitched and banked - we need to consider normal not perpendicular to 2D projection of segment
-                    distTmp = PointToLineDistance3DSigned(x3, y3, z_input, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z);
+                    distTmp = fabs(PointToLineDistance3DSigned(x3, y3, z_input, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z));
                 }
 
                 // Find closest point of the two
-- 
2.43.0


From 6b2fd0a41f3c6e823b20b7912471e62cb4f351d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:32 +0000
Subject: [PATCH 64/71] fix: injecting an action for an object that does not
 exist crashed

---
 .../Modules/PlayerBase/PlayerServer.cpp       | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..888f85e 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -170,9 +170,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectSpeedAction(SpeedActionStruct &action)
     {
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Can't inject action, object with id {} not found", action.id);
+            return;
+        }
+
         LongSpeedAction *a = new LongSpeedAction(nullptr);
         a->SetName("SpeedAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -188,9 +195,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneChangeAction(LaneChangeActionStruct &action)
     {
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Can't inject action, object with id {} not found", action.id);
+            return;
+        }
+
         LatLaneChangeAction *a = new LatLaneChangeAction(nullptr);
         a->SetName("LaneChangeAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -216,9 +230,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneOffsetAction(LaneOffsetActionStruct &action)
     {
+        Object *object = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (object == nullptr)
+        {
+            LOG_ERROR("Can't inject action, object with id {} not found", action.id);
+            return;
+        }
+
         LatLaneOffsetAction *a = new LatLaneOffsetAction(nullptr);
         a->SetName("LaneOffsetAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = object;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         a->max_num_executions_ = 1;
-- 
2.43.0


From d0b19f269dde294d33ab9ea21f15cc8363808c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:32 +0000
Subject: [PATCH 65/71] fix: of injected actions that end in the same frame
 some were still reported as ongoing

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 888f85e..6003ede 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -88,12 +88,15 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
-- 
2.43.0


From a4118c769cf7832aa5b6c5313b31fd598d6e8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 66/71] fix: an injected action that was replaced before its
 first frame was started all the same

---
 .../Modules/PlayerBase/PlayerServer.cpp             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 6003ede..d2fa137 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -51,8 +51,9 @@ namespace scenarioengine
         LOG_INFO("Adding action {}", action->GetName());
 
         // abort any action of same type and object
-        for (auto &a : action_)
+        for (size_t i = 0; i < action_.size(); i++)
         {
+            OSCAction *a = action_[i];
             if (a->action_type_ == action->action_type_ &&
                 ((a->GetBaseType() != OSCAction::BaseType::PRIVATE) ||
                  (static_cast<OSCPrivateAction *>(a)->object_ == static_cast<OSCPrivateAction *>(action)->object_)))
@@ -61,7 +62,15 @@ namespace scenarioengine
                          a->GetName(),
                          a->Type2Str(),
                          a->GetBaseType() == OSCAction::BaseType::PRIVATE ? (" for " + static_cast<OSCPrivateAction *>(a)->object_->GetName()) : "");
-                a->End();
+                if (a->GetCurrentState() == OSCAction::State::INIT)
+                {
+                    // not started yet, can't be ended
+                    DeleteAction(static_cast<unsigned int>(i--));
+                }
+                else
+                {
+                    a->End();
+                }
             }
         }
 
-- 
2.43.0


From 7d9a4abf1a6c1521e9f43d7b3c710a55a87ece8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:38 +0000
Subject: [PATCH 67/71] fix: shortest path did not consider the way left on the
 target road

---
 .../Modules/RoadManager/RoadManager.cpp       | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 633d76d..cfaa6f7 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6224,10 +6224,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
         return -1;
     }
 
-    for (i = 0; i < 100 && !found && unvisited_.size() > 0 && tmpDist < maxDist; i++)
-    {
-        found = false;
+    PathNode* targetNode = nullptr;       // last node of the shortest path found so far
+    double    targetDist = LARGE_NUMBER;  // length of that path
 
+    for (i = 0; i < 100 && unvisited_.size() > 0 && tmpDist < maxDist; i++)
+    {
         // Find unvisited PathNode with shortest distance
         double minDist  = LARGE_NUMBER;
         idx_t  minIndex = 0;
@@ -6240,6 +6241,12 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             }
         }
 
+        if (targetNode != nullptr && minDist >= targetDist)
+        {
+            // no remaining path can be shorter
+            break;
+        }
+
         link        = unvisited_[minIndex]->link;
         tmpDist     = unvisited_[minIndex]->dist;
         pivotRoad   = unvisited_[minIndex]->fromRoad;
@@ -6266,7 +6273,12 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                     tmpDist += nextRoad->GetLength() - targetPos_->GetS();
                 }
 
-                found = true;
+                if (tmpDist < targetDist)
+                {
+                    targetDist = tmpDist;
+                    targetNode = unvisited_[minIndex];
+                }
+                tmpDist = minDist;
             }
             else
             {
@@ -6314,7 +6326,13 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                         LOG_ERROR("Failed to check link in junction");
                         return -1;
                     }
-                    found = true;
+
+                    if (tmpDist < targetDist)
+                    {
+                        targetDist = tmpDist;
+                        targetNode = unvisited_[minIndex];
+                    }
+                    tmpDist = minDist;
                 }
                 else
                 {
@@ -6328,8 +6346,14 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
         unvisited_.erase(unvisited_.begin() + minIndex);
     }
 
-    if (found)
+    if (targetNode != nullptr)
     {
+        found   = true;
+        tmpDist = targetDist;
+
+        // the path is identified by the last visited node
+        std::swap(*std::find(visited_.begin(), visited_.end(), targetNode), visited_.back());
+
         // Find out whether the path goes forward or backwards from starting position
         if (visited_.size() > 0)
         {
-- 
2.43.0


From b1f0ed4e14e42e0e4ffd5056d50167c2a05ca5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:58 +0000
Subject: [PATCH 68/71] fix: length of a route counted the way to a waypoint
 from the one before on the same road

Of several waypoints on one road the last one counts, but the distance
to the next waypoint was measured from the preceding entry of the list
of all waypoints.
---
 .../Modules/RoadManager/RoadManager.cpp                | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index cfaa6f7..3d11840 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14742,11 +14742,11 @@ int Route::AddWaypoint(Position& position)
                         .MoveAlongS(nodes[i - 1]->fromRoad->GetLength() * 0.33, 0.0, 0.0, false, Position::MoveDirectionMode::ROAD_DIRECTION, false);
 
                     double mid_dist = 0.0;
-                    if (all_waypoints_.back().Distance(&connected_pos,
-                                                       CoordinateSystem::CS_ROAD,
-                                                       RelativeDistanceType::REL_DIST_LONGITUDINAL,
-                                                       mid_dist,
-                                                       LARGE_NUMBER) == 0)
+                    if (minimal_waypoints_.back().Distance(&connected_pos,
+                                                           CoordinateSystem::CS_ROAD,
+                                                           RelativeDistanceType::REL_DIST_LONGITUDINAL,
+                                                           mid_dist,
+                                                           LARGE_NUMBER) == 0)
                     {
                         length_mid_acc_ += fabs(mid_dist);
                         connected_pos.SetRouteWaypointS(length_mid_acc_);
-- 
2.43.0


From 697b63c4ebe296564886f0fe60d553ba71e1147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:45 +0000
Subject: [PATCH 69/71] fix: corners of speed profiles

- an entry without time that is not the last one replaced the corner before it
- a last entry in line with the two before kept its slope, the speed went on beyond it
- a first entry at time 0 was not relative to the referenced entity
- a profile with entries in line or of constant speed could remain running forever
---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index d38be4e..232abb4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1405,7 +1405,7 @@ void LongSpeedProfileAction::Start(double simTime)
         else
         {
             // in linear mode use specified initial speed
-            vertex.push_back(EntryVertex(init_time_, entry_[0].speed_));
+            vertex.push_back(EntryVertex(init_time_, entry_[0].speed_ + speed_offset));
         }
     }
     else  // negative time indicating time attribute omitted
@@ -1460,7 +1460,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         if (index < entry_.size() - 1)
         {
-            if (dt < SMALL_NUMBER)
+            if (fabs(dt) < SMALL_NUMBER)
             {
                 // replace previous entry
                 vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset);
@@ -1482,8 +1482,7 @@ void LongSpeedProfileAction::Start(double simTime)
         if (abs(delta_k) < SMALL_NUMBER && index > 1)
         {
             // replace previous entry
-            double new_k  = (entry_[index].speed_ + speed_offset - (vertex.rbegin() + 1)->v_) / (time - (vertex.rbegin() + 1)->t_);
-            vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, new_k);
+            vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, 0.0);
             continue;  // skip entry
         }
 
@@ -1728,14 +1727,13 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 {
     double time = simTime + dt;
 
-    if (time < segment_.back().t + 10 && !(time > segment_.back().t and abs(speed_ - segment_.back().v) < SMALL_NUMBER))
+    while (static_cast<unsigned int>(cur_index_) < segment_.size() - 1 && time > segment_[static_cast<unsigned int>(cur_index_) + 1].t - SMALL_NUMBER)
     {
-        while (static_cast<unsigned int>(cur_index_) < segment_.size() - 1 &&
-               time > segment_[static_cast<unsigned int>(cur_index_) + 1].t - SMALL_NUMBER)
-        {
-            cur_index_++;
-        }
+        cur_index_++;
+    }
 
+    if (time < segment_.back().t + 10 && !(time > segment_.back().t and abs(speed_ - segment_.back().v) < SMALL_NUMBER))
+    {
         SpeedSegment* s = &segment_[static_cast<unsigned int>(cur_index_)];
 
         speed_ = s->v + s->k * (time - s->t) + 0.5 * s->j * pow(time - s->t, 2);
@@ -1748,7 +1746,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
     elapsed_ = MAX(0.0, time - segment_[0].t);
 
-    if (static_cast<unsigned int>(cur_index_) >= entry_.size() - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
+    if (static_cast<unsigned int>(cur_index_) >= MIN(entry_.size(), segment_.size()) - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
     {
         speed_ = segment_.back().v;
         OSCAction::End();
-- 
2.43.0


From 44f6f0b02cc33c52723819c904e58b14671a6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:30 +0000
Subject: [PATCH 70/71] fix: distance actions started again kept the side and
 acceleration of their last run

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 11 +++++++----
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp   |  8 ++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 232abb4..6727533 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1855,6 +1855,7 @@ void LongDistanceAction::Start(double simTime)
     }
 
     // Resolve displacement
+    current_displacement_ = displacement_;
     if (displacement_ == DisplacementType::ANY)
     {
         // Find out current displacement, and apply it
@@ -1876,14 +1877,16 @@ void LongDistanceAction::Start(double simTime)
 
         if (distance < 0.0)
         {
-            displacement_ = DisplacementType::LEADING;
+            current_displacement_ = DisplacementType::LEADING;
         }
         else
         {
-            displacement_ = DisplacementType::TRAILING;
+            current_displacement_ = DisplacementType::TRAILING;
         }
     }
 
+    acceleration_ = 0.0;
+
     OSCAction::Start(simTime);
 }
 
@@ -1925,11 +1928,11 @@ void LongDistanceAction::Step(double simTime, double dt)
         requested_dist = abs(target_object_->speed_) * distance_;
     }
 
-    if (displacement_ == DisplacementType::TRAILING)
+    if (current_displacement_ == DisplacementType::TRAILING)
     {
         requested_dist = abs(requested_dist);
     }
-    else if (displacement_ == DisplacementType::LEADING)
+    else if (current_displacement_ == DisplacementType::LEADING)
     {
         requested_dist = -abs(requested_dist);
     }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0897745..673ed74 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -479,7 +479,8 @@ namespace scenarioengine
               freespace_(0),
               displacement_(DisplacementType::NONE),
               cs_(roadmanager::CoordinateSystem::CS_ENTITY),
-              acceleration_(0)
+              acceleration_(0),
+              current_displacement_(DisplacementType::NONE)
         {
         }
 
@@ -498,6 +499,8 @@ namespace scenarioengine
             displacement_  = action.displacement_;
             cs_            = action.cs_;
             continuous_    = action.continuous_;
+
+            current_displacement_ = action.current_displacement_;
         }
 
         OSCPrivateAction* Copy()
@@ -521,7 +524,8 @@ namespace scenarioengine
         void ReplaceObjectRefs(Object* obj1, Object* obj2);
 
     private:
-        double acceleration_;
+        double           acceleration_;
+        DisplacementType current_displacement_;  // as resolved when the action started
     };
 
     class LatDistanceAction : public OSCPrivateAction
-- 
2.43.0


From 4ffb260d0265d153d28c09dbecd9362393ef9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:08 +0000
Subject: [PATCH 71/71] fix: distances along a route to its intermediate
 waypoints

They were measured as the shortest distance in any direction, which is
not along the route where the road network has a loop, and a waypoint
that replaces another one on the same road was then measured from there.
---
 .../Modules/RoadManager/RoadManager.cpp       | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 3d11840..01a0a8c 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14732,7 +14732,6 @@ int Route::AddWaypoint(Position& position)
             if (nodes.size() > 1)
             {
                 // Add internal waypoints, one for each road along the path
-                double length_mid_acc_ = length_;
                 for (unsigned int i = static_cast<unsigned int>(nodes.size() - 1); i >= 1; i--)
                 {
                     // Find out lane ID of the connecting road and add the waypoint at 1/3 of the road length
@@ -14741,21 +14740,14 @@ int Route::AddWaypoint(Position& position)
                     connected_pos
                         .MoveAlongS(nodes[i - 1]->fromRoad->GetLength() * 0.33, 0.0, 0.0, false, Position::MoveDirectionMode::ROAD_DIRECTION, false);
 
-                    double mid_dist = 0.0;
-                    if (minimal_waypoints_.back().Distance(&connected_pos,
-                                                           CoordinateSystem::CS_ROAD,
-                                                           RelativeDistanceType::REL_DIST_LONGITUDINAL,
-                                                           mid_dist,
-                                                           LARGE_NUMBER) == 0)
+                    // Measure along the path, which is not necessarily the shortest one in any direction
+                    double mid_dist = connected_pos.GetS();
+                    if (nodes[i - 1]->contactPoint == ContactPointType::CONTACT_POINT_START)
                     {
-                        length_mid_acc_ += fabs(mid_dist);
-                        connected_pos.SetRouteWaypointS(length_mid_acc_);
-                        AddWaypointInternal(connected_pos, false, retval == 0);
-                    }
-                    else
-                    {
-                        LOG_ERROR_AND_QUIT("Invalid waypoint roadId {}", position.GetTrackId());
+                        mid_dist = nodes[i - 1]->fromRoad->GetLength() - connected_pos.GetS();
                     }
+                    connected_pos.SetRouteWaypointS(length_ + nodes[i]->dist + mid_dist);
+                    AddWaypointInternal(connected_pos, false, retval == 0);
                 }
             }
 
-- 
2.43.0

