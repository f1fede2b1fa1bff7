// stand-in for the ROS package urdf: the same parser (urdfdom) behind the same interface
#pragma once
#include <string>
#include "urdf_model/model.h"
#include "urdf_parser/urdf_parser.h"
namespace urdf
{
class Model : public ModelInterface
{
public:
  bool initString(const std::string & xml)
  {
    auto m = parseURDF(xml);
    if (!m) return false;
    this->links_ = m->links_; this->joints_ = m->joints_; this->materials_ = m->materials_;
    this->name_ = m->name_; this->root_link_ = m->root_link_;
    return true;
  }
};
}
