// see pch.hpp
