CREATE DATABASE IF NOT EXISTS `test`